#pragma once
#include <new>
#include <string_view>
#include <utility>

#include "e_regex.hpp"
#include "vt.hpp"

inline span_t to_token_span(std::string_view v)
{
    return {v.data(), v.data() == nullptr ? nullptr : v.data() + v.size()};
}

template<typename T>
struct tokenizer_under_test
{
        using iterator = decltype(T::match(std::string_view {}));

        static const iterator& it(const void* p)
        {
            return *static_cast<const iterator*>(p);
        }

        static void make(void* p, std::string_view q)
        {
            constexpr T tokenizer;
            new (p) iterator(tokenizer(q));
        }

        static void increment(void* p)
        {
            ++*static_cast<iterator*>(p);
        }

        static void copy(void* to, const void* from)
        {
            iterator one(it(from));
            new (to) iterator(std::move(one));
        }

        static void assign(void* to, const void* from)
        {
            iterator one(it(to));
            one                           = it(from);
            *static_cast<iterator*>(to) = std::move(one);
        }

        static void begin(void* to, const void* from)
        {
            new (to) iterator(it(from).begin());
        }

        static void end(void* to, const void* from)
        {
            new (to) iterator(it(from).end());
        }

        static bool equal(const void* a, const void* b)
        {
            return it(a) == it(b);
        }

        static bool different(const void* a, const void* b)
        {
            return it(a) != it(b);
        }

        static bool observe(const void* p, int& t, span_t& s, int& t1, span_t& s1)
        {
            const bool ok = static_cast<bool>(it(p));
            auto       v  = *it(p);
            t             = static_cast<int>(v.type);
            s             = to_token_span(v.value);
            t1            = static_cast<int>(it(p)->type);
            s1            = to_token_span(it(p)->value);
            return ok;
        }

        static void range(const void* p,
                          std::vector<span_t>& out,
                          std::vector<int>&    types,
                          std::size_t          most)
        {
            for (auto token: it(p))
            {
                out.push_back(to_token_span(token.value));
                types.push_back(static_cast<int>(token.type));
                if (out.size() > most)
                {
                    break;
                }
            }
        }

        static bool add(std::size_t id)
        {
            tokenizers().push_back({id,
                                    sizeof(iterator),
                                    &make,
                                    &increment,
                                    &copy,
                                    &assign,
                                    &begin,
                                    &end,
                                    &equal,
                                    &different,
                                    &observe,
                                    &range});
            return true;
        }
};
