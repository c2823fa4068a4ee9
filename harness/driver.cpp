// Runs jobs against the regexes and tokenizers linked in, and writes what
// the public interface shows as JSON lines; judges nothing.
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>

#include "vt.hpp"

std::vector<regex_vt>& regexes()
{
    static std::vector<regex_vt> v;
    return v;
}

std::vector<tokenizer_vt>& tokenizers()
{
    static std::vector<tokenizer_vt> v;
    return v;
}

std::vector<pair_fact>& pairs()
{
    static std::vector<pair_fact> v;
    return v;
}

std::vector<literal_fact>& literal_facts()
{
    static std::vector<literal_fact> v;
    return v;
}

std::vector<constant_fact>& constants()
{
    static std::vector<constant_fact> v;
    return v;
}

namespace
{
    // --- crashes and endless loops -------------------------------------
    sigjmp_buf            escape;
    volatile sig_atomic_t guarded = 0;
    int                   seconds = 8; // of CPU time
    int                   hangs   = 0;

    void on_signal(int s)
    {
        if (guarded != 0)
        {
            siglongjmp(escape, s == SIGVTALRM ? 2 : 1);
        }
        _exit(97);
    }

    void arm(int s)
    {
        itimerval t {};
        t.it_value.tv_sec = s;
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
    }

    // 0: fine, 1: crash, 2: does not end
    template<typename F>
    int attempt(F f)
    {
        int code = sigsetjmp(escape, 1);
        if (code == 0)
        {
            guarded = 1;
            arm(seconds);
            f();
        }
        arm(0);
        guarded = 0;
        if (code == 2 && ++hangs >= 2)
        {
            seconds = std::min(seconds, 60);
            seconds = seconds > 8 ? seconds : 3;
        }
        return code;
    }

    struct storage
    {
            std::vector<std::max_align_t> data;
            explicit storage(std::size_t n)
                : data(n / sizeof(std::max_align_t) + 1)
            {}
            void* get()
            {
                return data.data();
            }
    };

    std::string unhex(const std::string& h)
    {
        std::string r;
        if (h == "-")
        {
            return r;
        }
        for (std::size_t i = 0; i + 1 < h.size(); i += 2)
        {
            r += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
        }
        return r;
    }

    void put_bytes(std::string& out, std::string_view s)
    {
        out += '[';
        for (std::size_t i = 0; i < s.size(); ++i)
        {
            if (i != 0)
            {
                out += ',';
            }
            out += std::to_string(static_cast<unsigned char>(s[i]));
        }
        out += ']';
    }

    void put_ints(std::string& out, const std::vector<int>& v)
    {
        out += '[';
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            if (i != 0)
            {
                out += ',';
            }
            out += std::to_string(v[i]);
        }
        out += ']';
    }

    // A view as offsets; -1,-1: empty and not in the query,
    // -9,-9: not empty and not in the query
    void put_span(std::vector<int>& v, span_t s, std::string_view q)
    {
        if (s.begin >= q.data() && s.end <= q.data() + q.size()
            && s.begin <= s.end && (s.begin != nullptr || q.data() == nullptr))
        {
            v.push_back(static_cast<int>(s.begin - q.data()));
            v.push_back(static_cast<int>(s.end - q.data()));
        }
        else
        {
            const int n = s.begin == s.end ? -1 : -9;
            v.push_back(n);
            v.push_back(n);
        }
    }

    std::vector<int>
        flat(const regex_vt& r, const void* p, std::string_view q, int returned, unsigned& d)
    {
        observation o;
        r.observe(p, o);
        std::vector<int> v {returned < 0 ? (o.accepted ? 1 : 0) : returned,
                            o.accepted ? 1 : 0};
        put_span(v, o.match, q);
        for (auto g: o.groups)
        {
            put_span(v, g, q);
        }
        d |= o.disagreements;
        return v;
    }

    using history = std::vector<std::vector<int>>;

    // match, then next() until there are no matches, then again twice
    history run(const regex_vt& r, std::string_view q, unsigned& d)
    {
        history     h;
        const auto  most = q.size() + 4;
        const int   code = attempt([&] {
            storage s(r.size);
            r.make(s.get(), q);
            h.push_back(flat(r, s.get(), q, -1, d));
            int after = h.back()[1] == 0 ? 2 : -1;
            while (after != 0 && h.size() < most)
            {
                const int n = r.next(s.get()) ? 1 : 0;
                h.push_back(flat(r, s.get(), q, n, d));
                after = after > 0 ? after - 1 : (n == 0 ? 2 : -1);
            }
        });
        if (code != 0)
        {
            h.push_back({-code});
        }
        return h;
    }

    void put_case(std::string& out, std::string_view q, const history& h, unsigned d)
    {
        out += "{\"q\":";
        put_bytes(out, q);
        out += ",\"d\":" + std::to_string(d) + ",\"o\":[";
        for (std::size_t i = 0; i < h.size(); ++i)
        {
            if (i != 0)
            {
                out += ',';
            }
            put_ints(out, h[i]);
        }
        out += "]}";
    }

    bool broken(const history& h)
    {
        return !h.empty() && h.back()[0] < 0;
    }

    // What does not end is reported, but not all of it
    bool enough()
    {
        return hangs >= (seconds > 8 ? 2 : 8);
    }

    // --- the same query in different surroundings ----------------------
    struct arena
    {
            char*       base;
            std::size_t page;
            std::size_t pages = 64;

            arena() : page {static_cast<std::size_t>(sysconf(_SC_PAGESIZE))}
            {
                base = static_cast<char*>(mmap(nullptr,
                                               page * (pages + 2),
                                               PROT_NONE,
                                               MAP_PRIVATE | MAP_ANONYMOUS,
                                               -1,
                                               0));
                mprotect(base + page, page * pages, PROT_READ | PROT_WRITE);
            }
            char* first() const
            {
                return base + page;
            }
            char* last() const
            {
                return base + page * (pages + 1);
            }
    };

    // --- scripts over several results ----------------------------------
    // M h q: match   N h: next   I h: ++   C h k: copy construct
    // A h k: assign  B h k: begin()  E h k: end()  R h: range-based for
    // P q: match in another thread while others do the same
    struct op
    {
            char kind;
            int  a, b;
    };

    void script(std::string&                     out,
                const regex_vt&                  r,
                const std::vector<std::string>&  qs,
                const std::vector<op>&           ops)
    {
        const int                             handles = 3;
        std::vector<std::unique_ptr<storage>> s;
        std::vector<int>                      query(handles, -1);
        for (int i = 0; i < handles; ++i)
        {
            s.push_back(std::make_unique<storage>(r.size));
        }
        std::vector<std::vector<std::vector<int>>> events;
        const int code = attempt([&] {
            for (auto o: ops)
            {
                int                           returned = -1;
                std::vector<std::vector<int>> e;
                std::vector<int>              extra;
                unsigned                      d = 0;
                switch (o.kind)
                {
                    case 'M':
                        r.make(s[o.a]->get(), qs[o.b]);
                        query[o.a] = o.b;
                        break;
                    case 'N': returned = r.next(s[o.a]->get()) ? 1 : 0; break;
                    case 'I': r.increment(s[o.a]->get()); break;
                    case 'C':
                        r.copy(s[o.a]->get(), s[o.b]->get());
                        query[o.a] = query[o.b];
                        break;
                    case 'A':
                        r.assign(s[o.a]->get(), s[o.b]->get());
                        query[o.a] = query[o.b];
                        break;
                    case 'B':
                        r.begin(s[o.a]->get(), s[o.b]->get());
                        query[o.a] = query[o.b];
                        break;
                    case 'E':
                        r.end(s[o.a]->get(), s[o.b]->get());
                        query[o.a] = query[o.b];
                        break;
                    case 'R':
                    {
                        std::vector<span_t> seen;
                        const std::string_view q = qs[query[o.a]];
                        r.range(s[o.a]->get(), seen, q.size() + 3);
                        for (auto v: seen)
                        {
                            put_span(extra, v, q);
                        }
                        break;
                    }
                    default: break;
                }
                e.push_back({o.kind, o.a, o.b, returned});
                e.push_back(extra);
                for (int i = 0; i < handles; ++i)
                {
                    e.push_back(query[i] < 0
                                    ? std::vector<int> {}
                                    : flat(r, s[i]->get(), qs[query[i]], -1, d));
                }
                e[0].push_back(static_cast<int>(d));
                events.push_back(e);
            }
        });
        if (code != 0)
        {
            events.push_back({{-code}});
        }
        out += "{\"qs\":[";
        for (std::size_t i = 0; i < qs.size(); ++i)
        {
            if (i != 0)
            {
                out += ',';
            }
            put_bytes(out, qs[i]);
        }
        out += "],\"e\":[";
        for (std::size_t i = 0; i < events.size(); ++i)
        {
            if (i != 0)
            {
                out += ',';
            }
            out += '[';
            for (std::size_t j = 0; j < events[i].size(); ++j)
            {
                if (j != 0)
                {
                    out += ',';
                }
                put_ints(out, events[i][j]);
            }
            out += ']';
        }
        out += "]}";
    }

    void token_flat(std::vector<int>& v, const tokenizer_vt& t, const void* p, std::string_view q)
    {
        int    a = 0, b = 0;
        span_t s {}, s1 {};
        bool   ok = t.observe(p, a, s, b, s1);
        v.push_back(ok ? 1 : 0);
        v.push_back(a);
        put_span(v, s, q);
        // through ->
        v.push_back(b);
        put_span(v, s1, q);
    }

    // tokens until there are no more
    void tokenize(std::string& out, const tokenizer_vt& t, std::string_view q)
    {
        history   h;
        const int code = attempt([&] {
            storage s(t.size), e(t.size);
            t.make(s.get(), q);
            t.end(e.get(), s.get());
            int after = 2;
            while (after != 0 && h.size() < q.size() + 4)
            {
                std::vector<int> v;
                token_flat(v, t, s.get(), q);
                v.push_back(t.equal(s.get(), e.get()) ? 1 : 0);
                v.push_back(t.different(s.get(), e.get()) ? 1 : 0);
                h.push_back(v);
                if (v[0] == 0)
                {
                    --after;
                }
                if (after != 0)
                {
                    t.increment(s.get());
                }
            }
        });
        if (code != 0)
        {
            h.push_back({-code});
        }
        put_case(out, q, h, 0);
    }

    void token_script(std::string&                    out,
                      const tokenizer_vt&             t,
                      const std::vector<std::string>& qs,
                      const std::vector<op>&          ops)
    {
        const int                             handles = 3;
        std::vector<std::unique_ptr<storage>> s;
        std::vector<int>                      query(handles, -1);
        for (int i = 0; i < handles; ++i)
        {
            s.push_back(std::make_unique<storage>(t.size));
        }
        std::vector<std::vector<std::vector<int>>> events;
        const int code = attempt([&] {
            for (auto o: ops)
            {
                std::vector<std::vector<int>> e;
                std::vector<int>              extra;
                int                           returned = -1;
                switch (o.kind)
                {
                    case 'M':
                        t.make(s[o.a]->get(), qs[o.b]);
                        query[o.a] = o.b;
                        break;
                    case 'I': t.increment(s[o.a]->get()); break;
                    case 'C':
                        t.copy(s[o.a]->get(), s[o.b]->get());
                        query[o.a] = query[o.b];
                        break;
                    case 'A':
                        t.assign(s[o.a]->get(), s[o.b]->get());
                        query[o.a] = query[o.b];
                        break;
                    case 'B':
                        t.begin(s[o.a]->get(), s[o.b]->get());
                        query[o.a] = query[o.b];
                        break;
                    case 'E':
                        t.end(s[o.a]->get(), s[o.b]->get());
                        query[o.a] = query[o.b];
                        break;
                    case 'Q':
                        returned
                            = (t.equal(s[o.a]->get(), s[o.b]->get()) ? 1 : 0)
                              + (t.different(s[o.a]->get(), s[o.b]->get()) ? 2 : 0);
                        break;
                    case 'R':
                    {
                        std::vector<span_t>    seen;
                        std::vector<int>       types;
                        const std::string_view q = qs[query[o.a]];
                        t.range(s[o.a]->get(), seen, types, q.size() + 3);
                        for (std::size_t i = 0; i < seen.size(); ++i)
                        {
                            extra.push_back(types[i]);
                            put_span(extra, seen[i], q);
                        }
                        break;
                    }
                    default: break;
                }
                e.push_back({o.kind, o.a, o.b, returned});
                e.push_back(extra);
                for (int i = 0; i < handles; ++i)
                {
                    std::vector<int> v;
                    if (query[i] >= 0)
                    {
                        token_flat(v, t, s[i]->get(), qs[query[i]]);
                    }
                    e.push_back(v);
                }
                events.push_back(e);
            }
        });
        if (code != 0)
        {
            events.push_back({{-code}});
        }
        out += "{\"qs\":[";
        for (std::size_t i = 0; i < qs.size(); ++i)
        {
            if (i != 0)
            {
                out += ',';
            }
            put_bytes(out, qs[i]);
        }
        out += "],\"e\":[";
        for (std::size_t i = 0; i < events.size(); ++i)
        {
            if (i != 0)
            {
                out += ',';
            }
            out += '[';
            for (std::size_t j = 0; j < events[i].size(); ++j)
            {
                if (j != 0)
                {
                    out += ',';
                }
                put_ints(out, events[i][j]);
            }
            out += ']';
        }
        out += "]}";
    }
} // namespace

int main(int argc, char** argv)
{
    static char stack[1 << 16];
    stack_t     ss {};
    ss.ss_sp   = stack;
    ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = on_signal;
    sa.sa_flags   = SA_ONSTACK | SA_NODEFER;
    for (int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM})
    {
        sigaction(s, &sa, nullptr);
    }

    std::map<std::size_t, const regex_vt*>     by_id;
    std::map<std::size_t, const tokenizer_vt*> tokenizer_by_id;
    for (const auto& r: regexes())
    {
        by_id[r.id] = &r;
    }
    for (const auto& t: tokenizers())
    {
        tokenizer_by_id[t.id] = &t;
    }

    if (argc < 2)
    {
        return 2;
    }
    if (std::string {argv[1]} == "static")
    {
        for (const auto& r: regexes())
        {
            std::string out = "{\"r\":" + std::to_string(r.id)
                              + ",\"groups\":" + std::to_string(r.groups)
                              + ",\"rgroups\":" + std::to_string(r.groups_of_result)
                              + ",\"x\":";
            put_bytes(out, r.expression);
            std::cout << out << "}\n";
        }
        for (const auto& p: pairs())
        {
            std::cout << "{\"a\":" << p.a << ",\"b\":" << p.b
                      << ",\"ab\":" << p.a_b << ",\"ba\":" << p.b_a
                      << ",\"v\":" << p.by_value << "}\n";
        }
        for (const auto& c: constants())
        {
            std::string out = "{\"c\":" + std::to_string(c.id) + ",\"q\":";
            put_bytes(out, c.query);
            out += ",\"o\":";
            put_ints(out, std::vector<int>(c.data, c.data + c.size));
            std::cout << out << "}\n";
        }
        std::size_t failed = ~std::size_t {0};
        for (const auto& c: literal_facts())
        {
            if (c.id == failed || enough())
            {
                continue;
            }
            std::string      out = "{\"c\":" + std::to_string(c.id) + ",\"q\":";
            std::vector<int> o;
            const int        code = attempt([&] { o = c.observe(); });
            if (code != 0)
            {
                failed = c.id;
                o      = {-code};
            }
            put_bytes(out, c.query);
            out += ",\"o\":";
            put_ints(out, o);
            std::cout << out << "}\n";
        }
        return 0;
    }

    std::ifstream       in {argv[1]};
    std::string         line, out;
    const regex_vt*     r = nullptr;
    const tokenizer_vt* t = nullptr;
    bool                first = true;
    int                 failures = 0;
    arena               memory;

    auto finish = [&] {
        if (!out.empty())
        {
            std::cout << out << "]}\n";
        }
        out.clear();
        first    = true;
        failures = 0;
    };
    auto comma = [&] {
        if (!first)
        {
            out += ',';
        }
        first = false;
    };

    while (std::getline(in, line))
    {
        std::istringstream w {line};
        std::string        kind, h;
        w >> kind;
        if (kind == "R" || kind == "T")
        {
            std::size_t id;
            w >> id;
            finish();
            r = kind == "R" && by_id.count(id) != 0 ? by_id[id] : nullptr;
            t = kind == "T" && tokenizer_by_id.count(id) != 0 ? tokenizer_by_id[id]
                                                              : nullptr;
            if (r != nullptr || t != nullptr)
            {
                out = "{\"r\":" + std::to_string(id) + ",\"t\":[";
            }
            continue;
        }
        // Two failures are enough
        if ((r == nullptr && t == nullptr) || failures >= 2 || enough()
            || (failures >= 1 && (hangs != 0 || kind == "P")))
        {
            continue;
        }
        if (kind == "Q")
        {
            w >> h;
            const auto q = unhex(h);
            // exactly sized, so that nothing around it helps
            std::vector<char> copy(q.begin(), q.end());
            copy.push_back('\0');
            const std::string_view view {copy.data(), q.size()};
            comma();
            if (t != nullptr)
            {
                tokenize(out, *t, view);
                if (out.ends_with("[-1]]}") || out.ends_with("[-2]]}"))
                {
                    ++failures;
                }
            }
            else
            {
                unsigned d = 0;
                auto     o = run(*r, view, d);
                failures += broken(o) ? 1 : 0;
                put_case(out, view, o, d);
            }
        }
        else if (kind == "L")
        {
            // L n unit tail all: a long query, n times unit and tail; the
            // first result, and if all is 1 also how many there are and the
            // last one
            std::size_t n;
            std::string tail;
            int         all = 0;
            w >> n >> h >> tail >> all;
            seconds = std::max(seconds, 60);
            const std::string unit = unhex(h), end = unhex(tail);
            std::string       q;
            q.reserve(n * unit.size() + end.size());
            for (std::size_t i = 0; i < n; ++i)
            {
                q += unit;
            }
            q += end;
            history   o;
            long      count = -1;
            const int code  = attempt([&] {
                unsigned d = 0;
                if (t != nullptr)
                {
                    storage          s(t->size);
                    std::vector<int> v;
                    t->make(s.get(), q);
                    token_flat(v, *t, s.get(), q);
                    o.push_back(v);
                    o.push_back(v);
                    count = 0;
                    while (v[0] == 1 && count <= static_cast<long>(q.size()) + 1)
                    {
                        o[1] = v;
                        ++count;
                        t->increment(s.get());
                        v.clear();
                        token_flat(v, *t, s.get(), q);
                    }
                    return;
                }
                storage s(r->size);
                r->make(s.get(), q);
                o.push_back(flat(*r, s.get(), q, -1, d));
                if (all == 1)
                {
                    o.push_back(o[0]);
                    count = o[0][1];
                    while (count != 0 && count <= static_cast<long>(q.size()) + 2
                           && r->next(s.get()))
                    {
                        ++count;
                        o[1] = flat(*r, s.get(), q, 1, d);
                    }
                }
            });
            if (code != 0)
            {
                ++failures;
                o = {{-code}};
            }
            comma();
            out += "{\"unit\":";
            put_bytes(out, unit);
            out += ",\"tail\":";
            put_bytes(out, end);
            out += ",\"n\":" + std::to_string(n) + ",\"count\":" + std::to_string(count)
                   + ",\"o\":[";
            for (std::size_t i = 0; i < o.size(); ++i)
            {
                if (i != 0)
                {
                    out += ',';
                }
                put_ints(out, o[i]);
            }
            out += "]}";
        }
        else if (kind == "G")
        {
            // the same query in different surroundings; every different
            // outcome is a case
            w >> h;
            const auto q = unhex(h);
            if (t != nullptr)
            {
                std::memcpy(memory.last() - q.size(), q.data(), q.size());
                comma();
                tokenize(out, *t, {memory.last() - q.size(), q.size()});
                comma();
                std::memcpy(memory.first(), q.data(), q.size());
                memory.first()[q.size()] = q.empty() ? 'a' : q.back();
                tokenize(out, *t, {memory.first(), q.size()});
                continue;
            }
            std::vector<std::pair<history, unsigned>>     seen;
            auto                                          consider
                = [&](std::string_view view) {
                      if (failures >= 2 || (failures >= 1 && hangs != 0))
                      {
                          return;
                      }
                      unsigned d = 0;
                      auto     o = run(*r, view, d);
                      if (view != q)
                      {
                          d |= 64; // modified
                      }
                      failures += broken(o) ? 1 : 0;
                      for (const auto& s: seen)
                      {
                          if (s.first == o && s.second == d)
                          {
                              return;
                          }
                      }
                      seen.emplace_back(o, d);
                  };
            char* at_end = memory.last() - q.size();
            std::memcpy(at_end, q.data(), q.size());
            consider({at_end, q.size()});
            if (t == nullptr)
            {
                std::memcpy(memory.first(), q.data(), q.size());
                memory.first()[q.size()] = q.empty() ? 'a' : q.back();
                consider({memory.first(), q.size()});
                std::string around = q.empty() ? std::string {"a"} : q;
                around += "\nab0 \t";
                for (char c: around)
                {
                    std::string b(8, c);
                    b += q;
                    b += std::string(8, c);
                    std::vector<char> copy(b.begin(), b.end());
                    consider({copy.data() + 8, q.size()});
                }
                // followed by its own beginning, preceded by its own end
                std::string b = q + q + q;
                std::vector<char> copy(b.begin(), b.end());
                consider({copy.data() + q.size(), q.size()});
            }
            for (const auto& s: seen)
            {
                comma();
                put_case(out, q, s.first, s.second);
            }
        }
        else if (kind == "P")
        {
            // the same query in several threads
            w >> h;
            const auto q = unhex(h);
            std::vector<history>     o(4);
            std::vector<unsigned>    d(4, 0);
            std::vector<std::thread> threads;
            for (int i = 0; i < 4; ++i)
            {
                threads.emplace_back([&, i] {
                    for (int k = 0; k < 20; ++k)
                    {
                        history  now;
                        storage  s(r->size);
                        unsigned dd = 0;
                        r->make(s.get(), q);
                        now.push_back(flat(*r, s.get(), q, -1, dd));
                        int after = now.back()[1] == 0 ? 2 : -1;
                        while (after != 0 && now.size() < q.size() + 4)
                        {
                            const int n = r->next(s.get()) ? 1 : 0;
                            now.push_back(flat(*r, s.get(), q, n, dd));
                            after = after > 0 ? after - 1 : (n == 0 ? 2 : -1);
                        }
                        if (k == 0 || now != o[i])
                        {
                            o[i] = now;
                        }
                        d[i] |= dd;
                    }
                });
            }
            for (auto& x: threads)
            {
                x.join();
            }
            for (int i = 0; i < 4; ++i)
            {
                bool again = false;
                for (int k = 0; k < i; ++k)
                {
                    again = again || (o[k] == o[i] && d[k] == d[i]);
                }
                if (!again)
                {
                    comma();
                    put_case(out, q, o[i], d[i]);
                }
            }
        }
        else if (kind == "S")
        {
            int                      n;
            std::vector<std::string> qs;
            std::vector<op>          ops;
            w >> n;
            while (n-- > 0)
            {
                w >> h;
                qs.push_back(unhex(h));
            }
            w >> n;
            while (n-- > 0)
            {
                op o {};
                w >> o.kind >> o.a >> o.b;
                ops.push_back(o);
            }
            comma();
            if (t != nullptr)
            {
                token_script(out, *t, qs, ops);
            }
            else
            {
                script(out, *r, qs, ops);
            }
        }
    }
    finish();
    return 0;
}
