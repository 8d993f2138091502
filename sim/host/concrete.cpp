#include "concrete.h"
#include <algorithm>

namespace
{
std::string lower(std::string s)
{
    std::transform(s.begin(), s.end(), s.begin(), ::tolower);
    return s;
}

struct Step {
    std::string server;
    Name name;
    enum { ANSWER, NODATA, NXDOMAIN, REWRITE, REFER, REFUSED, UNKNOWN, TOOLONG, LOOP } what = ANSWER;
    size_t tail = 0;       // labels at the end that no zone knows
    bool exact = true;     // no unknown part
    std::vector<Rec> recs; // the records that decide
};

struct Resolver {
    const Loaded &ld;
    int type;
    std::vector<Step> path;
    std::function<void(const std::vector<Step> &)> done;
    long steps = 0, limit = 20000;
    bool cut = false;

    Resolver(const Loaded &l, int t) : ld(l), type(t)
    {
    }

    const LoadedZone *zone_at(const std::string &server, const Name &n, bool &known) const
    {
        auto it = ld.by_ns.find(server);
        known = it != ld.by_ns.end();
        const LoadedZone *best = nullptr;
        if (known)
            for (int i : it->second)
                if (under(ld.zones[i].origin, n) && (!best || ld.zones[i].origin.size() > best->origin.size()))
                    best = &ld.zones[i];
        return best;
    }

    void finish()
    {
        done(path);
    }

    // does a record of a type that GRoot analyses make this name exist?
    bool modelled(const Name &n) const
    {
        int x = 0;
        for (auto &l : n) {
            auto it = ld.label[x].child.find(l);
            if (it == ld.label[x].child.end())
                return false;
            x = it->second;
        }
        return true;
    }

    void ask(const std::string &server, const Name &name, size_t tail, bool exact)
    {
        if (++steps > limit) {
            cut = true;
            return;
        }
        for (auto &s : path)
            if (s.server == server && s.name == name)
                return; // a circle: C16's business
        bool known;
        const LoadedZone *z = zone_at(server, name, known);
        Step st;
        st.server = server;
        st.name = name;
        st.tail = tail;
        st.exact = exact;
        if (!z) {
            st.what = known ? Step::REFUSED : Step::UNKNOWN;
            path.push_back(st);
            finish();
            path.pop_back();
            return;
        }
        // RFC 1034 4.3.2 within the zone
        size_t have = z->origin.size();
        for (size_t d = z->origin.size(); d <= name.size(); d++) {
            Name at(name.begin(), name.begin() + (long)d);
            auto *recs = z->at(at);
            if (!recs)
                break;
            have = d;
            if (!modelled(at))
                return; // only DS records and the like make this name exist: outside the property
            bool ns = false, soa = false;
            const Rec *dname = nullptr;
            for (auto &r : *recs) {
                ns |= r.type == NS;
                soa |= r.type == SOA;
                if (r.type == DNAME)
                    dname = &r;
            }
            if (ns && !soa) {
                st.what = Step::REFER;
                for (auto &r : *recs)
                    if (r.type == NS)
                        st.recs.push_back(r);
                refer(st, *z, name, tail, exact);
                return;
            }
            if (dname && d < name.size()) {
                Name t = name_of(dname->rdata);
                t.insert(t.end(), name.begin() + (long)d, name.end());
                st.what = Step::REWRITE;
                st.recs = {*dname};
                rewrite(st, server, t, tail, exact);
                return;
            }
        }
        if (have == name.size()) {
            decide(st, server, *z->at(name));
            return;
        }
        Name star(name.begin(), name.begin() + (long)have);
        star.push_back("*");
        if (auto *recs = z->at(star)) {
            decide(st, server, *recs);
            return;
        }
        st.what = Step::NXDOMAIN;
        path.push_back(st);
        finish();
        path.pop_back();
    }

    void decide(Step st, const std::string &server, const std::vector<Rec> &recs)
    {
        for (auto &r : recs)
            if (r.type == CNAME) {
                st.what = Step::REWRITE;
                st.recs = {r};
                rewrite(st, server, name_of(r.rdata), 0, true);
                return;
            }
        for (auto &r : recs)
            if (r.type == type)
                st.recs.push_back(r);
        st.what = st.recs.empty() ? Step::NODATA : Step::ANSWER;
        path.push_back(st);
        finish();
        path.pop_back();
    }

    void rewrite(const Step &st, const std::string &server, const Name &to, size_t tail, bool exact)
    {
        path.push_back(st);
        bool known;
        if (length_ok(to)) {
            if (zone_at(server, to, known)) {
                ask(server, to, tail, exact);
            } else {
                for (auto &t : ld.top)
                    ask(t, to, tail, exact);
            }
        }
        path.pop_back();
    }

    void refer(const Step &st, const LoadedZone &, const Name &name, size_t tail, bool exact)
    {
        path.push_back(st);
        for (auto &r : st.recs)
            ask(r.rdata, name, tail, exact);
        path.pop_back();
    }
};

// The part of a name that the zone files know, directly or through DNAMEs.
struct Matcher {
    const Loaded &ld;
    std::vector<std::vector<int>> alias;

    Matcher(const Loaded &l) : ld(l)
    {
        for (auto &n : ld.label)
            alias.push_back(n.dname);
    }

    void close(std::set<int> &s) const
    {
        std::vector<int> todo(s.begin(), s.end());
        while (!todo.empty()) {
            int x = todo.back();
            todo.pop_back();
            for (int t : alias[x])
                if (s.insert(t).second)
                    todo.push_back(t);
        }
    }

    size_t matched(const Name &n, std::set<int> &cur) const
    {
        cur = {0};
        close(cur);
        size_t m = 0;
        for (auto &l : n) {
            std::set<int> next;
            for (int x : cur) {
                auto it = ld.label[x].child.find(l);
                if (it != ld.label[x].child.end())
                    next.insert(it->second);
            }
            if (next.empty())
                break;
            close(next);
            cur = next;
            m++;
        }
        return m;
    }

    // also through the aliases within the targets of aliases
    void complete()
    {
        std::vector<std::pair<int, Name>> edges;
        for (size_t i = 0; i < ld.label.size(); i++)
            for (int t : ld.label[i].dname) {
                Name n;
                for (int x = t; x != 0; x = ld.label[x].parent)
                    n.insert(n.begin(), ld.label[x].label);
                edges.push_back({(int)i, n});
            }
        for (bool again = true; again;) {
            again = false;
            for (auto &[from, to] : edges) {
                std::set<int> at;
                if (matched(to, at) != to.size())
                    continue;
                for (int t : at)
                    if (std::find(alias[from].begin(), alias[from].end(), t) == alias[from].end()) {
                        alias[from].push_back(t);
                        again = true;
                    }
            }
        }
    }
};
} // namespace

std::vector<Demand> concrete_demands(const Scenario &, const Loaded &ld, const Job &job, Rng &r, int names, long &queries,
                                     long &steps)
{
    std::vector<Demand> out;
    std::set<json> have;
    if (!job.sub)
        return out;
    Name dom = name_of(lower(job.domain));
    if (!length_ok(dom))
        return out;
    // types the job asks for
    Types req = 0;
    for (auto &p : job.props) {
        if (p.has_types)
            for (auto &t : p.types)
                req |= bit(type_of(t));
        else
            req |= bit(NS);
    }
    // names: existing ones, fresh ones below them, and names that a DNAME makes exist
    std::vector<Name> pool;
    std::vector<const Rec *> dnames;
    for (auto &z : ld.zones)
        for (auto &[n, recs] : z.nodes) {
            if (!under(z.origin, n))
                continue;
            pool.push_back(n);
            for (auto &x : recs) {
                if (x.type == DNAME)
                    dnames.push_back(&x);
                if (x.type == CNAME || x.type == DNAME || x.type == NS)
                    pool.push_back(name_of(x.rdata));
            }
        }
    std::sort(pool.begin(), pool.end());
    pool.erase(std::unique(pool.begin(), pool.end()), pool.end());
    std::set<Name> chosen;
    for (int i = 0; i < names * 6 && (int)chosen.size() < names && !pool.empty(); i++) {
        Name n = r.pick(pool);
        for (int k = 0; k < 3 && !dnames.empty() && r.chance(40); k++) {
            const Rec *d = r.pick(dnames);
            Name t = name_of(d->rdata);
            if (under(t, n)) {
                Name m = d->name;
                m.insert(m.end(), n.begin() + (long)t.size(), n.end());
                n = m;
            }
        }
        if (r.chance(45))
            n.push_back("zz" + std::to_string(r.below(3)));
        if (r.chance(15))
            n.push_back("yy");
        if (!under(dom, n) && r.chance(60)) {
            // move it below the domain
            Name m = dom;
            m.insert(m.end(), n.end() - (long)std::min<size_t>(n.size(), 1 + r.below(2)), n.end());
            n = m;
        }
        bool star = false;
        for (auto &l : n)
            star |= l == "*";
        if (star || !under(dom, n) || !length_ok(n))
            continue;
        chosen.insert(n);
    }
    Matcher shown_part(ld), whole_part(ld);
    whole_part.complete();
    for (auto &n : chosen) {
        std::set<int> ends;
        size_t matched = shown_part.matched(n, ends);
        bool unseen = whole_part.matched(n, ends) > matched;
        size_t tail = n.size() - matched;
        auto shown = [](const Name &m, size_t t, bool exact) {
            return exact ? text(m) : "~{ }." + text(Name(m.begin(), m.end() - (long)std::min(t, m.size())));
        };
        std::string cls = shown(n, tail, tail == 0);
        for (int t = 0; t < NTYPES; t++) {
            if (!(req & bit(t)) || t == CNAME)
                continue;
            Resolver res(ld, t);
            queries++;
            auto demand = [&](json j) {
                if (have.insert(j).second)
                    out.push_back({j, text(n), kTypeName[t], unseen});
            };
            res.done = [&](const std::vector<Step> &p) {
                int hops = 0, rewrites = 0;
                for (size_t i = 0; i < p.size(); i++) {
                    hops += i == 0 || p[i].server != p[i - 1].server;
                    rewrites += p[i].what == Step::REWRITE;
                }
                for (auto &x : job.props) {
                    std::vector<Name> ds;
                    std::string list;
                    for (auto &v : x.values) {
                        ds.push_back(name_of(lower(v)));
                        list += (list.empty() ? "[" : ", ") + text(ds.back());
                    }
                    list += "]";
                    auto inside = [&](const Name &m) {
                        for (auto &d : ds)
                            if (under(d, m))
                                return true;
                        return false;
                    };
                    json j;
                    if (x.name == "Hops" && hops > x.number) {
                        j["Property"] = "Hops";
                        j["Query"] = cls;
                        j["Violation"] = {{"ActualHops", hops}, {"MaxAllowedHops", x.number}};
                        demand(j);
                    } else if (x.name == "Rewrites" && rewrites > x.number) {
                        j["Property"] = "Rewrites";
                        j["Query"] = cls;
                        j["Violation"] = {{"ActualRewrites", rewrites}, {"MaxAllowedRewrites", x.number}};
                        demand(j);
                    } else if (x.name == "LameDelegation") {
                        for (size_t i = 0; i + 1 < p.size(); i++)
                            if (p[i].what == Step::REFER && p[i + 1].what == Step::REFUSED && p[i + 1].name == n) {
                                j["Property"] = "Lame Delegation";
                                j["Query"] = cls;
                                j["Violation"] = {{"Nameserver1", p[i].server}, {"Nameserver2", p[i + 1].server}};
                                demand(j);
                            }
                    } else if (x.name == "NameserverContact" && !ds.empty()) {
                        for (auto &s : p)
                            if (!inside(name_of(s.server))) {
                                j = json();
                                j["Property"] = "Name Server Contact";
                                j["Query"] = shown(s.name, s.tail, s.tail == 0);
                                j["Violation"] = {{"ExternalNameserver", s.server}, {"AllowedDomains", list}};
                                demand(j);
                            }
                    } else if (x.name == "QueryRewrite" && !ds.empty()) {
                        for (size_t i = 0; i + 1 < p.size(); i++)
                            if (p[i].what == Step::REWRITE) {
                                Name m = p[i + 1].name;
                                // what is asked of the unknown part is asked of all its names
                                Name known(m.begin(), m.end() - (long)std::min(p[i + 1].tail, m.size()));
                                if (inside(known))
                                    continue;
                                if (known.size() != m.size() && inside(m))
                                    continue;
                                j = json();
                                j["Property"] = "Query Rewrite";
                                j["Query"] = shown(p[i].name, p[i].tail, p[i].tail == 0);
                                j["Violation"] = {{"RewriteTarget", shown(m, p[i + 1].tail, p[i + 1].tail == 0)},
                                                  {"Nameserver", p[i].server},
                                                  {"ExpectedUnder", list}};
                                demand(j);
                            }
                    } else if (x.name == "RewriteBlackholing" && p.size() > 1 && p.back().what == Step::NXDOMAIN) {
                        for (size_t i = 0; i + 1 < p.size(); i++)
                            if (p[i].what == Step::REWRITE) {
                                j["Property"] = "Rewrite Blackholing";
                                j["Query"] = shown(p[i].name, p[i].tail, p[i].tail == 0);
                                j["Violation"] = {{"RewriteTarget", shown(p.back().name, p.back().tail, p.back().tail == 0)},
                                                  {"BlackholeNameserver", p.back().server}};
                                demand(j);
                                break;
                            }
                    } else if (x.name == "DelegationConsistency" && t == NS && tail == 0) {
                        // the last referral that is followed by an answer with name servers
                        int at = -1;
                        for (size_t i = 0; i + 1 < p.size(); i++)
                            if (p[i].what == Step::REFER && p[i + 1].what == Step::ANSWER && p[i + 1].name == n)
                                at = (int)i;
                        if (at < 0 || p.size() < 2)
                            continue;
                        auto names_of = [](const std::vector<Rec> &v) {
                            std::set<std::string> o;
                            for (auto &y : v)
                                o.insert(y.rdata);
                            return o;
                        };
                        if (p[at].recs[0].name == p[at + 1].recs[0].name &&
                            names_of(p[at].recs) != names_of(p[at + 1].recs)) {
                            j["Property"] = "Delegation Consistency";
                            j["Query"] = cls;
                            j["Violation"] = {{"Nameserver1", p[at].server},
                                              {"Nameserver2", p[at + 1].server},
                                              {"InconsistencyType", "NS"}};
                            demand(j);
                        }
                    }
                }
            };
            for (auto &s : ld.top)
                res.ask(s, n, tail, tail == 0);
            steps += res.steps;
        }
    }
    return out;
}
