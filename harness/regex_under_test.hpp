#pragma once
#include <initializer_list>
#include <new>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>

#include "e_regex.hpp"
#include "vt.hpp"

inline span_t to_span(std::string_view v)
{
    return {v.data(), v.data() == nullptr ? nullptr : v.data() + v.size()};
}

inline bool same(std::string_view a, std::string_view b)
{
    return a.size() == b.size() && (a.empty() || a.data() == b.data());
}

template<typename R, bool full>
struct under_test
{
        using result = decltype(R::match(std::string_view {}));

        static void make(void* p, std::string_view q)
        {
            new (p) result(R::match(q));
        }

        // through an object
        static void make_operator(void* p, std::string_view q)
        {
            constexpr R matcher;
            new (p) result(matcher(q));
        }

        static bool next(void* p)
        {
            return static_cast<result*>(p)->next();
        }

        template<std::size_t... I>
        static void compare_by_index(const result& r, unsigned& d, std::index_sequence<I...>)
        {
            auto one = [&]<std::size_t N>() {
                if (!same(r.template get<N>(), r.get_group(N)))
                {
                    d |= 8;
                }
                if (!same(std::get<N>(r), r.get_group(N))
                    || !std::is_same_v<std::tuple_element_t<N, result>, std::string_view>)
                {
                    d |= 16;
                }
            };
            (one.template operator()<I>(), ...);
        }

        // structured bindings
        static void decompose(const result& r, unsigned& d)
        {
            auto agree = [&](std::initializer_list<std::string_view> all) {
                unsigned n = 0;
                for (auto v: all)
                {
                    if (!same(v, r.get_group(n++)))
                    {
                        d |= 16;
                    }
                }
            };
            if constexpr (R::groups == 0)
            {
                const auto [m] = r;
                agree({m});
            }
            else if constexpr (R::groups == 1)
            {
                const auto [m, g1] = r;
                agree({m, g1});
            }
            else if constexpr (R::groups == 2)
            {
                const auto [m, g1, g2] = r;
                agree({m, g1, g2});
            }
            else if constexpr (R::groups == 3)
            {
                const auto [m, g1, g2, g3] = r;
                agree({m, g1, g2, g3});
            }
            else if constexpr (R::groups == 4)
            {
                const auto [m, g1, g2, g3, g4] = r;
                agree({m, g1, g2, g3, g4});
            }
            else if constexpr (R::groups == 5)
            {
                const auto [m, g1, g2, g3, g4, g5] = r;
                agree({m, g1, g2, g3, g4, g5});
            }
            else if constexpr (R::groups == 6)
            {
                const auto [m, g1, g2, g3, g4, g5, g6] = r;
                agree({m, g1, g2, g3, g4, g5, g6});
            }
            else if constexpr (R::groups == 7)
            {
                const auto [m, g1, g2, g3, g4, g5, g6, g7] = r;
                agree({m, g1, g2, g3, g4, g5, g6, g7});
            }
            else if constexpr (R::groups == 8)
            {
                const auto [m, g1, g2, g3, g4, g5, g6, g7, g8] = r;
                agree({m, g1, g2, g3, g4, g5, g6, g7, g8});
            }
            else if constexpr (R::groups == 9)
            {
                const auto [m, g1, g2, g3, g4, g5, g6, g7, g8, g9] = r;
                agree({m, g1, g2, g3, g4, g5, g6, g7, g8, g9});
            }
        }

        static void observe(const void* p, observation& o)
        {
            const auto& r   = *static_cast<const result*>(p);
            o.accepted      = r.is_accepted();
            o.match         = to_span(r.to_view());
            o.disagreements = 0;
            o.groups.clear();
            for (unsigned n = 1; n <= R::groups; ++n)
            {
                o.groups.push_back(to_span(r.get_group(n)));
            }
            if (static_cast<bool>(r) != r.is_accepted())
            {
                o.disagreements |= 1;
            }
            if constexpr (full)
            {
                const auto v = r.to_view();
                if (!same(*r, v))
                {
                    o.disagreements |= 2;
                }
                if (!same(r[0], v) || !same(r.get_group(0), v)
                    || !same(std::string_view {r}, v))
                {
                    o.disagreements |= 4;
                }
                const e_regex::literal_string_view<> converted = r;
                if (!same(std::string_view {converted}, v)
                    || !same(R::match(r).to_view(), R::match(v).to_view()))
                {
                    o.disagreements |= 64;
                }
                // What a range-based for needs
                if ((r != r.end()) != r.is_accepted() || r.end().is_accepted())
                {
                    o.disagreements |= 128;
                }
                for (unsigned n = 1; n <= R::groups; ++n)
                {
                    if (!same(r[n], r.get_group(n)))
                    {
                        o.disagreements |= 8;
                    }
                }
                compare_by_index(r,
                                 o.disagreements,
                                 std::make_index_sequence<R::groups + 1> {});
                decompose(r, o.disagreements);
                if (r.groups() != R::groups || r.size() != R::groups
                    || std::tuple_size<result>::value != R::groups + 1)
                {
                    o.disagreements |= 32;
                }
            }
        }

        static void increment(void* p)
        {
            ++*static_cast<result*>(p);
        }

        static void copy(void* to, const void* from)
        {
            result one(*static_cast<const result*>(from));
            new (to) result(std::move(one));
        }

        static void assign(void* to, const void* from)
        {
            result one(*static_cast<result*>(to));
            one                        = *static_cast<const result*>(from);
            *static_cast<result*>(to) = std::move(one);
        }

        static void begin(void* to, const void* from)
        {
            new (to) result(static_cast<const result*>(from)->begin());
        }

        static void end(void* to, const void* from)
        {
            new (to) result(static_cast<const result*>(from)->end());
        }

        static void range(const void* p, std::vector<span_t>& out, std::size_t most)
        {
            for (auto v: *static_cast<const result*>(p))
            {
                out.push_back(to_span(v));
                if (out.size() > most)
                {
                    break;
                }
            }
        }

        static bool add(std::size_t id)
        {
            regex_vt vt {};
            vt.id      = id;
            vt.size    = sizeof(result);
            vt.make    = &make;
            vt.next    = &next;
            vt.observe = &observe;
            vt.groups  = R::groups;
            vt.groups_of_result = result::groups();
            vt.size_of_result   = R::groups;
            if constexpr (full)
            {
                vt.make      = &make_operator;
                vt.increment = &increment;
                vt.copy      = &copy;
                vt.assign    = &assign;
                vt.begin     = &begin;
                vt.end       = &end;
                vt.range     = &range;
            }
            vt.expression = std::string {R::get_expression()};
            regexes().push_back(vt);
            return true;
        }
};

/// a regex whose numbers are of interest, not its matches
template<typename R>
struct numbers_under_test
{
        static bool add(std::size_t id)
        {
            regex_vt vt {};
            vt.id         = id;
            vt.groups     = R::groups;
            vt.groups_of_result = decltype(R::match(std::string_view {}))::groups();
            vt.size_of_result   = R::groups;
            vt.expression = std::string {R::get_expression()};
            regexes().push_back(vt);
            return true;
        }
};
