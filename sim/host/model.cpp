#include "model.h"
#include <algorithm>

// ---------------------------------------------------------------- loading

static int label_node(Loaded &l, const Name &n)
{
    int cur = 0;
    for (auto &lab : n) {
        auto it = l.label[cur].child.find(lab);
        if (it == l.label[cur].child.end()) {
            int id = (int)l.label.size();
            l.label.push_back({});
            l.label[id].label = lab;
            l.label[id].parent = cur;
            l.label[cur].child[lab] = id;
            l.label[cur].order.push_back(id);
            cur = id;
        } else {
            cur = it->second;
        }
    }
    return cur;
}

static std::string rec_text(const Rec &r)
{
    return text(r.name) + "   " + (r.type < NTYPES ? kTypeName[r.type] : "") + "   " + r.rdata;
}

static bool needs_glue(const LoadedZone &z, const std::vector<Rec> &ns)
{
    for (auto &r : ns)
        if (under(z.origin, name_of(r.rdata)))
            return true;
    return false;
}

static std::vector<Rec> addresses(const LoadedZone &z, const Rec &ns)
{
    std::vector<Rec> o;
    if (auto *recs = z.at(name_of(ns.rdata)))
        for (auto &r : *recs)
            if (r.type == A || r.type == AAAA)
                o.push_back(r);
    return o;
}

Loaded load(const Scenario &s)
{
    Loaded l;
    l.label.push_back({});
    l.label[0].label = ".";
    for (auto t : s.top) {
        std::transform(t.begin(), t.end(), t.begin(), ::tolower);
        l.top.push_back(t);
    }
    int id = 0;
    for (auto &z : s.zones) {
        id++;
        LoadedZone lz;
        lz.id = id;
        lz.ns = z.ns;
        std::transform(lz.ns.begin(), lz.ns.end(), lz.ns.begin(), ::tolower);
        auto rz = render(z);
        lz.nodes[{}];
        for (size_t i = 0; i < z.recs.size(); i++) {
            const Rec &r = z.recs[i];
            l.parsed++;
            auto issue = [&](const std::string &what, const Rec *prev) {
                json j;
                j["File Name"] = z.file;
                j["Line Number"] = rz.line[i];
                j["Current Record"] = rec_text(r);
                j["Violation"] = what;
                if (prev)
                    j["Previous Record"] = rec_text(*prev);
                l.lint.push_back(j);
            };
            std::string bad;
            if (!length_ok(r.name, &bad)) {
                l.counts[bad.empty() ? "Domain Length Exceeded" : "Label Length Exceeded"]++;
                issue(bad.empty() ? "Domain length exceedes max length (255)" : bad + " - length exceedes max length (63)",
                      nullptr);
                continue;
            }
            if ((r.type == NS || r.type == CNAME || r.type == DNAME) && !length_ok(name_of(r.rdata), &bad)) {
                l.counts[bad.empty() ? "Domain Length Exceeded" : "Label Length Exceeded"]++;
                issue(bad.empty() ? "Target domain length exceedes max length (255)" : bad + " - length exceedes 63", nullptr);
                continue;
            }
            if (!(r.type == SOA && !lz.has_soa) && !under(lz.origin, r.name)) {
                l.counts["Out-of-Zone-Records"]++;
                issue("OUT OF ZONE RECORD", nullptr);
                continue;
            }
            auto &recs = lz.nodes[r.name];
            for (size_t k = 0; k <= r.name.size(); k++)
                lz.nodes[Name(r.name.begin(), r.name.begin() + (long)k)];
            std::string what;
            bool dup = false;
            for (auto &o : recs) {
                if (o.type == r.type) {
                    if (o.ttl == r.ttl && o.rdata == r.rdata)
                        dup = true;
                    else if (r.type == CNAME)
                        what = "MULTIPLE CNAMEs";
                    else if (r.type == DNAME)
                        what = "MULTIPLE DNAMEs";
                } else if (o.type == CNAME || r.type == CNAME) {
                    what = "CNAME AND OTHER TYPES";
                }
                if (dup || !what.empty())
                    break;
            }
            if (dup) {
                l.counts["Duplicate-Records"]++;
                issue("Duplicate Record", nullptr);
                continue;
            }
            if (!what.empty()) {
                l.counts["CNAME/DNAME Errors"]++;
                issue(what, &recs[0]);
                continue;
            }
            recs.push_back(r);
            if (r.type == SOA) {
                lz.origin = r.name;
                lz.has_soa = true;
            }
            l.counts[kTypeName[r.type]]++;
            if (!r.name.empty() && r.name.back() == "*")
                l.counts["Wildcard"]++;
            if (r.type < NTYPES) {
                int n = label_node(l, r.name);
                if (r.type == DNAME) {
                    int t = label_node(l, name_of(r.rdata));
                    auto &d = l.label[n].dname;
                    if (std::find(d.begin(), d.end(), t) == d.end())
                        d.push_back(t);
                }
                auto &zs = l.label[n].zones;
                std::pair<int, Name> e(id, r.name);
                if (std::find(zs.begin(), zs.end(), e) == zs.end())
                    zs.push_back(e);
                l.label[n].types |= bit(r.type);
            }
        }
        if (lz.has_soa) {
            l.by_ns[lz.ns].push_back((int)l.zones.size());
            l.zones.push_back(std::move(lz));
        }
    }
    l.vertices = (long)l.label.size();
    for (auto &n : l.label)
        l.edges += (long)(n.order.size() + n.dname.size());
    for (auto &z : l.zones)
        for (auto &[name, recs] : z.nodes)
            for (auto &r : recs)
                if (r.type == NS && under(z.origin, name_of(r.rdata)) && addresses(z, r).empty()) {
                    json j;
                    j["Server"] = z.ns;
                    j["Zone"] = text(z.origin);
                    j["Violation"] = "Missing Glue Record";
                    j["Resource Record"] = rec_text(r);
                    l.lint.push_back(j);
                }
    return l;
}

// ---------------------------------------------------------------- zone lookup

static Types types_of(const std::vector<Rec> &recs)
{
    Types t = 0;
    for (auto &r : recs)
        if (r.type < NTYPES)
            t |= bit(r.type);
    return t;
}

const LoadedZone *Model::relevant(const std::string &ns, const Name &q) const
{
    auto it = ld_.by_ns.find(ns);
    if (it == ld_.by_ns.end())
        return nullptr;
    const LoadedZone *best = nullptr;
    for (int i : it->second) {
        const LoadedZone &z = ld_.zones[i];
        if (under(z.origin, q) && (!best || z.origin.size() > best->origin.size()))
            best = &z;
    }
    return best;
}

std::vector<Answer> Model::lookup(const LoadedZone &z, const Query &q) const
{
    // the deepest existing name on the way to the query, stopping at zone cuts and at DNAMEs above it
    size_t depth = 0;
    const std::vector<Rec> *node = z.at({});
    while (depth < q.name.size()) {
        if (depth == 0 && (types_of(*node) & bit(DNAME)))
            break;
        auto *next = z.at(Name(q.name.begin(), q.name.begin() + (long)depth + 1));
        if (!next)
            break;
        depth++;
        node = next;
        Types t = types_of(*node);
        if ((t & bit(NS)) && !(t & bit(SOA)))
            break;
        if ((t & bit(DNAME)) && depth < q.name.size())
            break;
    }
    Name here(q.name.begin(), q.name.begin() + (long)depth);
    Types have = types_of(*node);
    auto of_type = [&](int t) {
        std::vector<Rec> o;
        for (auto &r : *node)
            if (r.type == t)
                o.push_back(r);
        return o;
    };
    auto with_glue = [&](const std::vector<Rec> &ns) {
        std::vector<Rec> o;
        for (auto &r : ns) {
            o.push_back(r);
            for (auto &a : addresses(z, r))
                o.push_back(a);
        }
        return o;
    };
    auto answers = [&](Types found, std::vector<Rec> recs) {
        std::vector<Answer> o;
        if (found)
            o.push_back({T_ANS, found, std::move(recs)});
        if (q.types & ~found)
            o.push_back({T_ANS, q.types & ~found, {}});
        return o;
    };
    auto cname = [&](const Rec &r, Types t) -> std::vector<Answer> {
        return {{q.types == bit(CNAME) ? T_ANS : T_REWRITE, t, {r}}};
    };
    if (depth == q.name.size() && !q.excluded) {
        if (have & bit(CNAME))
            return cname(of_type(CNAME)[0], have);
        if ((have & bit(NS)) && !(have & bit(SOA)))
            return {{T_REF, have, with_glue(of_type(NS))}};
        std::vector<Rec> recs;
        for (auto &r : *node)
            if (r.type != NS && r.type < NTYPES && (q.types & bit(r.type)))
                recs.push_back(r);
        if (q.types & bit(NS))
            for (auto &r : with_glue(of_type(NS)))
                recs.push_back(r);
        return answers(q.types & have, recs);
    }
    if ((have & bit(NS)) && !(have & bit(SOA)))
        return {{T_REF, have, with_glue(of_type(NS))}};
    if (have & bit(DNAME))
        return {{T_REWRITE, have, of_type(DNAME)}};
    Name star = here;
    star.push_back("*");
    if (auto *w = z.at(star)) {
        std::vector<Rec> recs;
        Types found = 0;
        for (auto &r : *w) {
            if (r.type == CNAME)
                return cname(r, have);
            if (r.type < NTYPES && (q.types & bit(r.type))) {
                recs.push_back(r);
                found |= bit(r.type);
            }
        }
        return answers(found, recs);
    }
    return {{T_NX, q.types, {}}};
}

// ---------------------------------------------------------------- resolution

int Model::insert(IGraph &g, const std::string &ns, const Query &q, int from, int side)
{
    tick(4);
    g.edges++;
    for (int i : g.by_ns[ns]) {
        tick();
        if (g.v[i].q.same(q)) {
            g.v[from].out.push_back({i, side});
            return -1;
        }
    }
    int id = (int)g.v.size();
    g.v.push_back({ns, q, {}, {}});
    g.v[from].out.push_back({id, side});
    g.by_ns[ns].push_back(id);
    return id;
}

void Model::start_from_top(IGraph &g, int from, const Query &q)
{
    for (auto &ns : ld_.top) {
        int v = insert(g, ns, q, from, -1);
        if (v < 0)
            continue;
        if (auto *z = relevant(ns, q.name))
            resolve_at(g, *z, v);
        else
            g.v[v].ans = {{T_REFUSED, q.types, {}}};
    }
}

void Model::rewritten(IGraph &g, int v, const Query &q)
{
    std::string ns = g.v[v].ns;
    if (!length_ok(q.name)) {
        int n = insert(g, ns, q, v, -1);
        if (n >= 0)
            g.v[n].ans = {{T_YX, q.types, {}}};
        return;
    }
    if (auto *z = relevant(ns, q.name)) {
        int n = insert(g, ns, q, v, -1);
        if (n >= 0)
            resolve_at(g, *z, n);
    } else {
        start_from_top(g, v, q);
    }
}

void Model::refer(IGraph &g, int v, const std::string &ns, int side)
{
    Query q = g.v[v].q;
    q.non_existent = g.v[v].q.non_existent;
    int n = insert(g, ns, q, v, side);
    if (n < 0)
        return;
    if (!ld_.by_ns.count(ns))
        g.v[n].ans = {{T_NSNOTFOUND, q.types, {}}};
    else if (auto *z = relevant(ns, q.name))
        resolve_at(g, *z, n);
    else
        g.v[n].ans = {{T_REFUSED, q.types, {}}};
}

void Model::resolve_at(IGraph &g, const LoadedZone &z, int v)
{
    if (g.v.size() > 3000)
        throw TooBig();
    g.v[v].ans = lookup(z, g.v[v].q);
    auto answers = g.v[v].ans;
    const Query q = g.v[v].q;
    for (auto &a : answers) {
        if (a.tag == T_REWRITE) {
            const Rec &r = a.recs[0];
            Query n;
            if (r.type == CNAME) {
                n.name = name_of(r.rdata);
                n.types = q.types & ~bit(CNAME);
            } else {
                n.name = name_of(r.rdata);
                n.name.insert(n.name.end(), q.name.begin() + (long)r.name.size(), q.name.end());
                n.types = q.types;
                n.excluded = q.excluded;
            }
            rewritten(g, v, n);
        } else if (a.tag == T_REF) {
            for (size_t i = 0; i < a.recs.size(); i++) {
                if (a.recs[i].type != NS)
                    continue;
                std::string ns = a.recs[i].rdata;
                bool glue = i + 1 < a.recs.size() && a.recs[i + 1].type != NS;
                if (glue || std::find(ld_.top.begin(), ld_.top.end(), ns) != ld_.top.end()) {
                    refer(g, v, ns, -1);
                } else {
                    Query s;
                    s.name = name_of(ns);
                    s.types = bit(A) | bit(AAAA);
                    int side = -1;
                    for (int i2 : g.by_ns[""])
                        if (g.v[i2].q.same(s)) {
                            side = i2;
                            break;
                        }
                    if (side < 0) {
                        side = (int)g.v.size();
                        g.v.push_back({"", s, {}, {}});
                        g.by_ns[""].push_back(side);
                        start_from_top(g, side, s);
                    }
                    refer(g, v, ns, side);
                }
            }
        }
    }
}

std::shared_ptr<IGraph> Model::resolve(const Query &q)
{
    std::string key = q.str() + "/" + std::to_string(q.types) + (q.non_existent ? "n" : "");
    auto &c = cache_[key];
    if (!c) {
        c = std::make_shared<IGraph>();
        c->v.push_back({"", q, {}, {}});
        c->by_ns[""].push_back(0);
        start_from_top(*c, 0, q);
    }
    return c;
}

// ---------------------------------------------------------------- classes

std::vector<Query> Model::classes(const Job &job, Types req, std::set<json> &found)
{
    std::vector<Query> out;
    bool want_structural = false;
    for (auto &p : job.props)
        want_structural |= p.name == "StructuralDelegationConsistency";
    std::string dom = job.domain;
    std::transform(dom.begin(), dom.end(), dom.begin(), ::tolower);
    Name d = name_of(dom);
    if (!length_ok(d))
        return out;
    // nodes that match most of the domain, through DNAMEs too
    struct Hit {
        int node, matched;
    };
    std::vector<int> len(ld_.label.size(), -1);
    std::function<std::vector<Hit>(int, int)> search = [&](int n, int i) -> std::vector<Hit> {
        tick();
        if (i == (int)d.size())
            return {{n, i}};
        if (len[n] == i)
            return {};
        int before = len[n];
        len[n] = i;
        std::vector<Hit> all = {{n, i}};
        for (int t : ld_.label[n].dname) {
            auto r = search(t, i);
            all.insert(all.end(), r.begin(), r.end());
        }
        auto it = ld_.label[n].child.find(d[i]);
        if (it != ld_.label[n].child.end()) {
            auto r = search(it->second, i + 1);
            all.insert(all.end(), r.begin(), r.end());
        }
        len[n] = before;
        int best = -1;
        for (auto &h : all)
            best = std::max(best, h.matched);
        std::vector<Hit> o;
        for (auto &h : all)
            if (h.matched == best)
                o.push_back(h);
        return o;
    };
    auto hits = search(0, 0);
    if (hits[0].matched < (int)d.size()) {
        Query q;
        q.name = Name(d.begin(), d.begin() + hits[0].matched);
        q.types = req;
        q.excluded = true;
        out.push_back(q);
        return out;
    }
    if (!job.sub) {
        Query q;
        q.name = d;
        q.types = req;
        out.push_back(q);
        return out;
    }
    auto chars = [](const Name &n) {
        size_t l = 0;
        for (auto &x : n)
            l += x.size() + 1;
        return (int)l;
    };
    for (auto &h : hits) {
        std::map<int, int> on_walk;
        std::function<void(int, const Name &, bool, bool)> walk = [&](int n, const Name &parent, bool skip, bool structure) {
            tick(3);
            auto it = on_walk.find(n);
            int before = it == on_walk.end() ? -1 : it->second;
            int plen = chars(parent);
            if (plen > 254 || (plen == before && skip))
                return;
            Name name = parent;
            if (n != 0 && !skip)
                name.push_back(ld_.label[n].label);
            if (chars(name) > 254)
                return;
            on_walk[n] = chars(name);
            if (structure) {
                bool any = false;
                json j = this->structural(n, name, any);
                if (any)
                    found.insert(normalise(j));
            }
            bool star = false;
            for (int c : ld_.label[n].order) {
                star |= ld_.label[c].label == "*";
                walk(c, name, false, structure);
            }
            for (int t : ld_.label[n].dname)
                walk(t, name, true, false);
            on_walk[n] = before;
            if (!skip) {
                Query q;
                q.name = name;
                q.types = req;
                out.push_back(q);
            }
            Query q;
            q.name = name;
            q.excluded = true;
            q.types = star ? req : kAllTypes;
            q.non_existent = !star;
            out.push_back(q);
        };
        Name parent = d;
        if (!parent.empty())
            parent.pop_back();
        walk(h.node, parent, false, want_structural);
    }
    return out;
}

// ---------------------------------------------------------------- structural check

struct Diff {
    std::vector<std::string> common, only_a, only_b;
    bool same() const
    {
        return only_a.empty() && only_b.empty();
    }
};

static Diff diff(const std::vector<Rec> &a, const std::vector<Rec> &b)
{
    Diff d;
    std::vector<std::string> rest;
    for (auto &r : b)
        rest.push_back(rec_text(r));
    for (auto &r : a) {
        auto it = std::find(rest.begin(), rest.end(), rec_text(r));
        if (it == rest.end()) {
            d.only_a.push_back(rec_text(r));
        } else {
            d.common.push_back(*it);
            rest.erase(it);
        }
    }
    d.only_b = rest;
    return d;
}

json Model::structural(int node, const Name &name, bool &any) const
{
    any = false;
    const LabelNode &n = ld_.label[node];
    if (!(n.types & bit(NS)))
        return {};
    struct Side {
        const LoadedZone *z;
        std::vector<Rec> ns, glue;
        bool has_glue;
    };
    std::vector<Side> parents, children;
    for (auto &[id, zname] : n.zones) {
        const LoadedZone *z = nullptr;
        for (auto &c : ld_.zones)
            if (c.id == id)
                z = &c;
        if (!z)
            continue;
        Side s{z, {}, {}, true};
        bool soa = false;
        for (auto &r : *z->at(zname)) {
            soa |= r.type == SOA;
            if (r.type == NS)
                s.ns.push_back(r);
        }
        for (auto &r : s.ns)
            for (auto &g : addresses(*z, r))
                s.glue.push_back(g);
        if (soa) {
            s.has_glue = needs_glue(*z, s.ns);
            if (!s.has_glue)
                s.glue.clear();
            children.push_back(s);
        } else if (parents.empty() || parents[0].z->origin == z->origin) {
            parents.push_back(s);
        } else if (under(parents[0].z->origin, z->origin)) {
            parents = {s};
        }
    }
    if (!children.empty() && !children.back().z->origin.empty()) {
        const Name &child = children.back().z->origin;
        for (auto &p : parents)
            p.glue.erase(
                std::remove_if(p.glue.begin(), p.glue.end(), [&](const Rec &r) { return !under(child, r.name); }),
                p.glue.end());
    }
    json j;
    auto compare = [&](const Side &a, const Side &b, const std::string &na, const std::string &nb, bool glue) {
        Diff d = diff(a.ns, b.ns), g;
        if (glue)
            g = diff(a.glue, b.glue);
        if (d.same() && g.same())
            return;
        any = true;
        json o;
        o[na + " NS"] = a.z->ns;
        o[nb + " NS"] = b.z->ns;
        auto put = [&](const std::string &k, const std::vector<std::string> &v) {
            if (!v.empty())
                o[k] = v;
        };
        put("Common NS Records", d.common);
        put("Exclusive " + na + " NS Records", d.only_a);
        put("Exclusive " + nb + " NS Records", d.only_b);
        put("Common Glue Records", g.common);
        put("Exclusive " + na + " Glue Records", g.only_a);
        put("Exclusive " + nb + " Glue Records", g.only_b);
        j["Inconsistent Pairs"].push_back(o);
    };
    for (auto &p : parents)
        for (auto &c : children)
            compare(p, c, "parent", "child", c.has_glue);
    for (size_t a = 0; a < parents.size(); a++)
        for (size_t b = a + 1; b < parents.size(); b++)
            compare(parents[a], parents[b], "parent-a", "parent-b", true);
    for (size_t a = 0; a < children.size(); a++)
        for (size_t b = a + 1; b < children.size(); b++)
            compare(children[a], children[b], "child-a", "child-b", true);
    if (any) {
        j["Property"] = "Structural Delegation Consistency";
        j["Domain Name"] = text(name);
    }
    return j;
}

// ---------------------------------------------------------------- checks

Job Model::default_job()
{
    Job j;
    j.domain = ".";
    j.sub = true;
    Prop p;
    for (auto n : {"Hops", "Rewrites", "DelegationConsistency", "LameDelegation", "QueryRewrite", "RewriteBlackholing"}) {
        p.name = n;
        p.number = p.name == "Hops" ? 2 : 1;
        p.values.clear();
        if (p.name == "QueryRewrite")
            p.values = {"."};
        j.props.push_back(p);
    }
    return j;
}

json JobResult::alias_entry() const
{
    json j;
    j["Property"] = "All Aliases";
    j["Canonical Name and their Aliases"] = json::array();
    for (auto &[k, v] : aliases) {
        json e;
        e["Canonical Name"] = k;
        e["Aliases"] = v;
        j["Canonical Name and their Aliases"].push_back(e);
    }
    return j;
}

Model::Model(const Scenario &s, long limit) : sc_(s), ld_(load(s)), limit_(limit)
{
}

static std::string lower(std::string s)
{
    std::transform(s.begin(), s.end(), s.begin(), ::tolower);
    return s;
}

JobResult Model::run(const Job &job)
{
    JobResult res;
    res.domain = job.domain;
    Types req = 0;
    struct P {
        const Prop *p;
        Types types = 0;
        std::vector<Name> names;
        std::set<std::string> values;
        std::string list;
    };
    std::vector<P> props;
    for (auto &p : job.props) {
        P x;
        x.p = &p;
        if (p.has_types)
            for (auto &t : p.types)
                x.types |= bit(type_of(t));
        req |= p.has_types ? x.types : bit(NS);
        for (auto &v : p.values) {
            x.values.insert(lower(v));
            x.names.push_back(name_of(lower(v)));
            x.list += (x.list.empty() ? "[" : ", ") + text(x.names.back());
        }
        x.list += "]";
        props.push_back(x);
    }
    auto qs = classes(job, req, res.violations);
    res.classes = (long)qs.size();
    std::set<std::string> seen;
    for (auto &q : qs) {
        std::string key = q.str() + "/" + std::to_string(q.types) + (q.non_existent ? "n" : "");
        bool again = !seen.insert(key).second;
        auto gp = resolve(q);
        const IGraph &g = *gp;
        long nv = (long)g.v.size();
        squares += (double)nv * (double)nv;
        for (auto &v : g.v)
            labels += (double)v.q.name.size() + 1;
        res.vertices.push_back(nv);
        res.edges.push_back((long)g.edges);
        if (again)
            continue;
        // cycles; the implementation's search may visit every path before it gives up
        {
            long visits = 0;
            std::vector<char> on(g.v.size(), 0);
            std::function<bool(int)> dfs = [&](int v) {
                if (++visits > 20000)
                    throw TooBig();
                if (on[v])
                    return true;
                on[v] = 1;
                bool found = false;
                for (auto &[t, s] : g.v[v].out)
                    found = found || (s >= 0 && dfs(s)) || dfs(t);
                on[v] = 0;
                return found;
            };
            if (dfs(0)) {
                res.cyclic_classes++;
                res.cyclic.push_back(gp);
            }
            tick(visits);
        }
        // paths and end nodes
        std::vector<int> ends;
        std::vector<std::vector<int>> paths;
        {
            std::vector<int> p;
            std::vector<char> on(g.v.size(), 0);
            auto end = [&](int v) {
                if (std::find(ends.begin(), ends.end(), v) == ends.end())
                    ends.push_back(v);
            };
            std::function<void(int)> dfs = [&](int v) {
                tick(2);
                const auto &x = g.v[v];
                if (!x.ns.empty() && !x.ans.empty() && x.ans[0].tag == T_REWRITE && x.ans[0].recs[0].type == CNAME &&
                    (x.q.types & bit(CNAME))) {
                    end(v);
                    auto c = p;
                    c.push_back(v);
                    paths.push_back(c);
                }
                if (on[v])
                    return;
                on[v] = 1;
                p.push_back(v);
                for (auto &e : x.out)
                    dfs(e.first);
                if (x.out.empty()) {
                    end(v);
                    paths.push_back(p);
                }
                p.pop_back();
                on[v] = 0;
            };
            dfs(0);
            tick((long)paths.size() * 4);
            for (auto &x : paths)
                path_nodes += (double)x.size();
        }
        auto tag = [&](int v) { return g.v[v].ans.empty() ? -1 : (int)g.v[v].ans[0].tag; };
        for (auto &x : props) {
            const std::string &pn = x.p->name;
            auto add = [&](const json &j) { res.violations.insert(normalise(j)); };
            json j;
            if (pn == "Hops" || pn == "Rewrites") {
                for (auto &p : paths) {
                    int hops = 0, rewrites = 0;
                    std::string last;
                    for (int v : p) {
                        if (g.v[v].ns.empty())
                            continue;
                        if (g.v[v].ns != last)
                            hops++;
                        last = g.v[v].ns;
                        rewrites += tag(v) == T_REWRITE;
                    }
                    bool h = pn == "Hops";
                    int n = h ? hops : rewrites;
                    if (n > x.p->number) {
                        j["Property"] = pn;
                        j["Query"] = q.str();
                        j["Violation"]["Actual" + pn] = n;
                        j["Violation"]["MaxAllowed" + pn] = x.p->number;
                        add(j);
                    }
                }
            } else if (pn == "QueryRewrite" && !x.names.empty()) {
                for (auto &p : paths)
                    for (size_t i = 0; i + 1 < p.size(); i++)
                        if (tag(p[i]) == T_REWRITE) {
                            const Query &n = g.v[p[i + 1]].q;
                            bool ok = false;
                            for (auto &d : x.names)
                                ok |= under(d, n.name);
                            if (ok)
                                continue;
                            j["Property"] = "Query Rewrite";
                            j["Query"] = g.v[p[i]].q.str();
                            j["Violation"]["RewriteTarget"] = n.str();
                            j["Violation"]["Nameserver"] = g.v[p[i]].ns;
                            j["Violation"]["ExpectedUnder"] = x.list;
                            add(j);
                        }
            } else if (pn == "NameserverContact" && !x.names.empty()) {
                for (auto &p : paths)
                    for (int v : p) {
                        if (g.v[v].ns.empty())
                            continue;
                        bool ok = false;
                        for (auto &d : x.names)
                            ok |= under(d, name_of(g.v[v].ns));
                        if (ok)
                            continue;
                        j["Property"] = "Name Server Contact";
                        j["Query"] = g.v[v].q.str();
                        j["Violation"]["ExternalNameserver"] = g.v[v].ns;
                        j["Violation"]["AllowedDomains"] = x.list;
                        add(j);
                    }
            } else if (pn == "RewriteBlackholing") {
                for (auto &p : paths)
                    for (size_t i = 0; i < p.size(); i++)
                        if (tag(p[i]) == T_REWRITE) {
                            if (i + 1 < p.size() && tag(p.back()) == T_NX) {
                                j["Property"] = "Rewrite Blackholing";
                                j["Query"] = g.v[p[i]].q.str();
                                j["Violation"]["RewriteTarget"] = g.v[p.back()].q.str();
                                j["Violation"]["BlackholeNameserver"] = g.v[p.back()].ns;
                                add(j);
                            }
                            break;
                        }
            } else if (pn == "AllAliases" && !x.names.empty()) {
                for (auto &p : paths)
                    for (size_t i = 0; i < p.size(); i++)
                        if (tag(p[i]) == T_REWRITE)
                            for (size_t k = i + 1; k < p.size(); k++) {
                                const Query &c = g.v[p[k]].q;
                                if (!c.excluded && std::find(x.names.begin(), x.names.end(), c.name) != x.names.end())
                                    res.aliases[c.str()].insert(g.v[p[i]].q.str());
                            }
            } else if (pn == "LameDelegation") {
                for (auto &p : paths)
                    for (size_t i = 0; i + 1 < p.size(); i++)
                        if (tag(p[i]) == T_REF && tag(p[i + 1]) == T_REFUSED && g.v[p[i + 1]].q.name == q.name) {
                            j["Property"] = "Lame Delegation";
                            j["Query"] = q.str();
                            j["Violation"]["Nameserver1"] = g.v[p[i]].ns;
                            j["Violation"]["Nameserver2"] = g.v[p[i + 1]].ns;
                            add(j);
                        }
            } else if (pn == "DelegationConsistency") {
                for (auto &p : paths) {
                    if (p.size() < 3)
                        continue;
                    int at = -1;
                    for (size_t i = 0; i + 1 < p.size(); i++)
                        if (tag(p[i]) == T_REF && tag(p[i + 1]) == T_ANS) {
                            const Answer &a = g.v[p[i + 1]].ans[0];
                            if ((a.types & bit(NS)) && !a.recs.empty() && g.v[p[i + 1]].q.name == q.name)
                                at = (int)i;
                        }
                    if (at < 0)
                        continue;
                    auto split = [](const std::vector<Rec> &r) {
                        std::pair<std::vector<Rec>, std::vector<Rec>> o;
                        for (auto &y : r) {
                            if (y.type == NS)
                                o.first.push_back(y);
                            if (y.type == A || y.type == AAAA)
                                o.second.push_back(y);
                        }
                        return o;
                    };
                    auto parent = split(g.v[p[at]].ans[0].recs), child = split(g.v[p[at + 1]].ans[0].recs);
                    if (!parent.first.empty() && !child.first.empty()) {
                        if (parent.first[0].name != child.first[0].name)
                            continue;
                    }
                    if (!child.first.empty()) {
                        const Name &cd = child.first[0].name;
                        auto &pg = parent.second;
                        pg.erase(std::remove_if(pg.begin(), pg.end(), [&](const Rec &r) { return !under(cd, r.name); }),
                                 pg.end());
                    }
                    for (int k = 0; k < 2; k++) {
                        Diff d = k ? diff(parent.second, child.second) : diff(parent.first, child.first);
                        if (d.same())
                            continue;
                        j["Property"] = "Delegation Consistency";
                        j["Query"] = q.str();
                        j["Violation"]["Nameserver1"] = g.v[p[at]].ns;
                        j["Violation"]["Nameserver2"] = g.v[p[at + 1]].ns;
                        j["Violation"]["InconsistencyType"] = k ? "Glue" : "NS";
                        add(j);
                    }
                }
            } else if (pn == "DNAMESubstitutionCheck") {
                for (auto &p : paths)
                    if (tag(p.back()) == T_YX) {
                        j["Property"] = "DNAME Substitution exceeds length";
                        j["Query"] = q.str();
                        j["Violation"]["RewriteTarget"] = g.v[p.back()].q.str();
                        j["Violation"]["Nameserver"] = g.v[p.back()].ns;
                        add(j);
                    }
            } else if (pn == "InfiniteDNameRec") {
                // a rewriting record used twice along a path without the name getting shorter
                for (auto &p : paths) {
                    struct Use {
                        Rec rec;
                        size_t labels;
                        std::string query;
                    };
                    std::vector<Use> used;
                    bool done = false;
                    for (size_t i = 0; i < p.size() && !done; i++) {
                        if (tag(p[i]) != T_REWRITE)
                            continue;
                        const Query &at = g.v[p[i]].q;
                        for (auto &a : g.v[p[i]].ans)
                            for (auto &r : a.recs) {
                                if (done)
                                    break;
                                auto u = std::find_if(used.begin(), used.end(), [&](const Use &x) {
                                    return x.rec.name == r.name && x.rec.type == r.type && x.rec.rdata == r.rdata;
                                });
                                if (u == used.end()) {
                                    used.push_back({r, at.name.size(), at.str()});
                                } else if (at.name.size() >= u->labels) {
                                    j["Property"] = "Infinite DName Recursion";
                                    j["Query1"] = u->query;
                                    j["Query2"] = at.str();
                                    j["RRsUsed"] = json::object();
                                    for (size_t k = 0; k < used.size(); k++)
                                        j["RRsUsed"]["RR" + std::to_string(k + 1)] = rec_text(used[k].rec);
                                    add(j);
                                    j = json();
                                    done = true;
                                } else {
                                    *u = {u->rec, at.name.size(), at.str()};
                                }
                            }
                    }
                }
            } else if (pn == "ResponseReturned") {
                for (int v : ends) {
                    if (g.v[v].q.non_existent)
                        break;
                    if (!(g.v[v].q.types & x.types) || g.v[v].ns.empty())
                        continue;
                    if (tag(v) == T_REFUSED || tag(v) == T_NSNOTFOUND)
                        continue;
                    for (auto &a : g.v[v].ans)
                        if (a.recs.empty() && (a.types & x.types)) {
                            j["Property"] = "ResponseReturned";
                            j["Query"] = g.v[v].q.str();
                            j["Violation"]["Types"] = types_text(a.types & x.types);
                            j["Violation"]["Nameserver"] = g.v[v].ns;
                            add(j);
                        }
                }
            } else if (pn == "ResponseValue" && !x.values.empty()) {
                json mism = json::array();
                auto cat = [](const std::set<std::string> &s) {
                    std::string o;
                    for (auto &y : s)
                        o += y;
                    return o;
                };
                for (int v : ends) {
                    if (!(g.v[v].q.types & x.types) || g.v[v].ns.empty())
                        continue;
                    std::set<std::string> found;
                    if (tag(v) == T_ANS || (tag(v) == T_REWRITE && (x.types & bit(CNAME)))) {
                        for (auto &r : g.v[v].ans[0].recs)
                            if (r.type < NTYPES && (x.types & bit(r.type)))
                                found.insert(r.rdata);
                        if (found == x.values)
                            continue;
                    } else if (tag(v) != T_NX && tag(v) != T_YX) {
                        continue;
                    }
                    json m;
                    m["Found"] = cat(found);
                    m["Query"] = g.v[v].q.str();
                    m["Nameserver"] = g.v[v].ns;
                    mism.push_back(m);
                }
                if (!mism.empty()) {
                    j["Property"] = "Response Value";
                    j["Expected"] = cat(x.values);
                    j["Mismatches"] = mism;
                    add(j);
                }
            } else if (pn == "ResponseConsistency") {
                auto of = [&](int v) {
                    std::multiset<std::string> o;
                    for (auto &r : g.v[v].ans[0].recs)
                        if (r.type < NTYPES && (x.types & bit(r.type)))
                            o.insert(rec_text(r));
                    return o;
                };
                std::vector<int> plain, alias;
                for (int v : ends) {
                    if (!(g.v[v].q.types & x.types) || g.v[v].ns.empty() || tag(v) == T_REFUSED || tag(v) == T_NSNOTFOUND)
                        continue;
                    if (g.v[v].q.types & x.types & bit(CNAME))
                        alias.push_back(v);
                    if (tag(v) != T_REWRITE)
                        plain.push_back(v);
                }
                bool differ = false;
                for (int v : plain)
                    differ |= of(v) != of(plain[0]);
                for (int v : alias)
                    differ |= tag(v) != tag(alias[0]) || of(v) != of(alias[0]);
                if (differ) {
                    j["Property"] = "Response Consistency";
                    j["Query"] = g.v[0].q.str();
                    add(j);
                }
            } else if (pn == "ZeroTTL") {
                for (int v : ends) {
                    if (!(g.v[v].q.types & x.types) || g.v[v].ns.empty() || tag(v) == T_REFUSED || tag(v) == T_NSNOTFOUND)
                        continue;
                    for (auto &r : g.v[v].ans[0].recs)
                        if (r.ttl == 0 && r.type < NTYPES && (x.types & bit(r.type))) {
                            j["Property"] = "Zero TTL";
                            j["Query"] = g.v[v].q.str();
                            j["Violation"]["Nameserver"] = g.v[v].ns;
                            j["Violation"]["Record"] = rec_text(r);
                            add(j);
                        }
                }
            }
        }
    }
    return res;
}

// ---------------------------------------------------------------- normal forms

json normalise(const json &e)
{
    json j = e;
    if (!j.is_object() || !j.count("Property"))
        return j;
    if (j.count("Mismatches") && j["Mismatches"].is_array())
        std::sort(j["Mismatches"].begin(), j["Mismatches"].end());
    if (j.count("RRsUsed") && j["RRsUsed"].is_object()) {
        // a set
        json used = json::array();
        for (auto &[k, v] : j["RRsUsed"].items())
            used.push_back(v);
        std::sort(used.begin(), used.end());
        j["RRsUsed"] = used;
    }
    if (j.count("Inconsistent Pairs") && j["Inconsistent Pairs"].is_array()) {
        for (auto &p : j["Inconsistent Pairs"]) {
            for (auto &[k, v] : p.items())
                if (v.is_array())
                    std::sort(v.begin(), v.end());
            // which of two equals comes first does not matter
            for (std::string side : {"parent", "child"})
                if (p.count(side + "-a NS")) {
                    json o;
                    for (auto &[k, v] : p.items()) {
                        std::string n = k;
                        auto at = n.find(side + "-a");
                        if (at != std::string::npos) {
                            n[at + side.size() + 1] = 'b';
                        } else {
                            at = n.find(side + "-b");
                            if (at != std::string::npos)
                                n[at + side.size() + 1] = 'a';
                        }
                        o[n] = v;
                    }
                    if (o < p)
                        p = o;
                }
        }
        std::sort(j["Inconsistent Pairs"].begin(), j["Inconsistent Pairs"].end());
    }
    return j;
}

bool cycle_in(const json &entry, const IGraph &g)
{
    if (!entry.count("Loop") || !entry["Loop"].is_array() || entry["Loop"].empty())
        return false;
    const json &loop = entry["Loop"];
    auto fits = [&](int v, const json &n) {
        const auto &x = g.v[v];
        if (n.value("NS", "?") != x.ns || n.value("Query", "?") != x.q.str())
            return false;
        if (x.ans.empty())
            return n.count("AnswerTag") == 0;
        return n.count("AnswerTag") && n["AnswerTag"] == (int)x.ans[0].tag;
    };
    for (size_t s = 0; s < g.v.size(); s++) {
        if (!fits((int)s, loop[0]))
            continue;
        std::set<int> cur = {(int)s};
        for (size_t i = 1; i <= loop.size(); i++) {
            std::set<int> next;
            for (int v : cur)
                for (auto &[t, sd] : g.v[v].out)
                    for (int x : {t, sd})
                        if (x >= 0 && (i < loop.size() ? fits(x, loop[i]) : x == (int)s))
                            next.insert(x);
            cur = next;
        }
        if (!cur.empty())
            return true;
    }
    return false;
}
