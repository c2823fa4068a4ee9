// What the driver needs to know about a regex or a tokenizer under test.
// Only the public interface of the library is used.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>

struct span_t
{
        const char* begin;
        const char* end;
};

struct observation
{
        bool                accepted;
        span_t              match;
        std::vector<span_t> groups;
        unsigned            disagreements; // accessors that differ
};

struct regex_vt
{
        std::size_t id;
        std::size_t size;
        void (*make)(void*, std::string_view);
        bool (*next)(void*);
        void (*observe)(const void*, observation&);
        // only for scripts
        void (*increment)(void*);
        void (*copy)(void*, const void*);
        void (*assign)(void*, const void*);
        void (*begin)(void*, const void*);
        void (*end)(void*, const void*);
        void (*range)(const void*, std::vector<span_t>&, std::size_t);
        // static attributes
        unsigned    groups;
        unsigned    groups_of_result;
        unsigned    size_of_result;
        std::string expression;
};

struct tokenizer_vt
{
        std::size_t id;
        std::size_t size;
        void (*make)(void*, std::string_view);
        void (*increment)(void*);
        void (*copy)(void*, const void*);
        void (*assign)(void*, const void*);
        void (*begin)(void*, const void*);
        void (*end)(void*, const void*);
        bool (*equal)(const void*, const void*);
        bool (*different)(const void*, const void*);
        // holds a token, its type and text through * and ->
        bool (*observe)(const void*, int&, span_t&, int&, span_t&);
        void (*range)(const void*, std::vector<span_t>&, std::vector<int>&, std::size_t);
};

std::vector<regex_vt>&     regexes();
std::vector<tokenizer_vt>& tokenizers();

struct pair_fact
{
        std::size_t a, b;
        bool        a_b, b_a, by_value;
};
std::vector<pair_fact>& pairs();

// observations made during compilation: flattened integers
struct constant_fact
{
        std::size_t      id;
        std::string_view query;
        const int*       data;
        std::size_t      size;
};
std::vector<constant_fact>& constants();

// observations of string literals, made when asked for
struct literal_fact
{
        std::size_t      id;
        std::string_view query;
        std::vector<int> (*observe)();
};
std::vector<literal_fact>& literal_facts();

enum class kind : long
{
    k0 = 0,
    k1 = 1,
    k2 = 2,
    k3 = 300,
    k4 = -7,
    k5 = 70000,
    k6 = 2000000000,
    k7 = -2000000000,
    k8 = 7,
    k9 = 65537
};
