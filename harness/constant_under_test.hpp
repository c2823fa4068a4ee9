// Observations made in constant expressions.
#pragma once
#include <array>
#include <string_view>

#include "e_regex.hpp"
#include "vt.hpp"

template<std::size_t size>
struct constant_history
{
        std::array<int, size> data {};
        std::size_t           n = 0;

        constexpr void push(int v)
        {
            data[n++] = v;
        }

        // -1,-1: empty and not in the query, -9,-9: neither
        constexpr void push(std::string_view v, std::string_view q)
        {
            int begin = v.empty() ? -1 : -9;
            for (std::size_t i = 0; i + v.size() <= q.size(); ++i)
            {
                if (v.data() == q.data() + i)
                {
                    begin = static_cast<int>(i);
                    break;
                }
            }
            push(begin);
            push(begin < 0 ? begin : begin + static_cast<int>(v.size()));
        }
};

// The query has no terminating null, reading beyond its end is an error.
// An empty query is a null range, or the end of an array.
template<std::size_t size>
constexpr std::string_view query_of(const std::array<char, size>& q)
{
    return {q.data(), size};
}

template<>
constexpr std::string_view query_of(const std::array<char, 0>&)
{
    return {};
}

// argument: what the matcher is given; q: the query it is
template<typename R, std::size_t size>
constexpr auto matches_of(const auto& argument, std::string_view q)
{
    constant_history<(size + 5) * (4 + 2 * R::groups)> h;
    constexpr R                                        matcher;
    auto                                               result = matcher(argument);
    auto show = [&](bool returned) {
        h.push(returned ? 1 : 0);
        h.push(result.is_accepted() ? 1 : 0);
        h.push(result.to_view(), q);
        for (unsigned n = 1; n <= R::groups; ++n)
        {
            h.push(result.get_group(n), q);
        }
    };
    show(result.is_accepted());
    int after = result.is_accepted() ? -1 : 2;
    for (std::size_t n = 0; n < size + 3 && after != 0; ++n)
    {
        const bool returned = result.next();
        show(returned);
        after = after > 0 ? after - 1 : (returned ? -1 : 2);
    }
    return h;
}

template<typename R, std::size_t size>
constexpr auto constant_matches(const std::array<char, size>& query)
{
    const auto q = query_of(query);
    return matches_of<R, size>(q, q);
}

// a string literal: its null is not part of the query
template<typename R, std::size_t size>
constexpr auto literal_matches(const char (&query)[size])
{
    return matches_of<R, size>(query, std::string_view {query, size - 1});
}

template<typename T, std::size_t size>
constexpr auto tokens_of(const auto& argument, std::string_view q)
{
    constant_history<(size + 5) * 9> h;
    constexpr T                      tokenizer;
    auto                             it = tokenizer(argument);
    const auto                       e  = it.end();
    int                              after = 2;
    for (std::size_t n = 0; n < size + 4 && after != 0; ++n)
    {
        const auto token = *it;
        h.push(static_cast<bool>(it) ? 1 : 0);
        h.push(static_cast<int>(token.type));
        h.push(token.value, q);
        h.push(static_cast<int>(it->type));
        h.push(it->value, q);
        h.push(it == e ? 1 : 0);
        h.push(it != e ? 1 : 0);
        if (!it)
        {
            --after;
        }
        if (after != 0)
        {
            ++it;
        }
    }
    return h;
}

template<typename T, std::size_t size>
constexpr auto constant_tokens(const std::array<char, size>& query)
{
    const auto q = query_of(query);
    return tokens_of<T, size>(q, q);
}

template<typename T, std::size_t size>
constexpr auto literal_tokens(const char (&query)[size])
{
    return tokens_of<T, size>(query, std::string_view {query, size - 1});
}

std::vector<int> listed(const auto& h)
{
    return {h.data.begin(), h.data.begin() + static_cast<std::ptrdiff_t>(h.n)};
}

