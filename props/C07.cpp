#include "bridge.h"
#include <cstdlib>
#include <new>
using namespace pbt;
using namespace model;
using namespace bridge;
const char *const kPropertyId = "C07";
const char *const kRule =
    "a case is a history of up to 30 operations (build, operators with copied or moved operands, compound assignment also onto itself, clone, "
    "move, node copy/move assignment, Calc, Simplify, Diff, Subs, Parse, failing calls) over a pool of six expressions; after every operation each "
    "touched entry equals a tree rebuilt from its own recipe, untouched entries print unchanged and parent links hold; the history is run "
    "twice and the second run must release every allocation. Non-trivial: at least 4 operations, one of which reads an entry that stays held.";
const Knobs kKnobs = {30, 16000, false};

// allocation balance
static long gLive = 0;
void *operator new(std::size_t n) {
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    gLive++;
    return p;
}
void operator delete(void *p) noexcept { if (p) { gLive--; std::free(p); } }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }

namespace {
// How an expression came about. Rebuilding it uses only fresh objects and plain calls.
struct Rec;
typedef std::shared_ptr<const Rec> R;
struct Rec {
    enum Kind { BASE, UN, BIN, SIMPLIFY, DIFF, SUBS, CALC } kind;
    E base;
    Op op = Op::NUM;
    R a, b;
    std::string var;
    int k = 1;
};
ts::Node rebuild(const R &r) {
    switch (r->kind) {
    case Rec::BASE: return toNode(r->base);
    case Rec::UN: return unary(r->op, rebuild(r->a));
    case Rec::BIN: return binary(r->op, rebuild(r->a), rebuild(r->b));
    case Rec::SIMPLIFY: { ts::Node n = rebuild(r->a); ts::Simplify(n); return n; }
    case Rec::DIFF: return ts::Diff(rebuild(r->a), r->var, r->k);
    case Rec::SUBS: { ts::Node by = rebuild(r->b); return ts::Subs(rebuild(r->a), r->var, by); }
    default: { ts::Node n = rebuild(r->a); n->Calc(); return n; }
    }
}
struct Entry {
    ts::Node n;
    R rec;
    E e; // model tree when the recipe has one, else null
    std::string text;
    int size = 1;
};
R mk(Rec::Kind k, Op op, R a, R b, const std::string &var = "", int times = 1) {
    auto r = std::make_shared<Rec>();
    r->kind = k; r->op = op; r->a = a; r->b = b; r->var = var; r->k = times;
    return r;
}
const int P = 6, MAXSIZE = 400;
typedef std::vector<Entry> Pool;

int count(const ts::Node &n) { // rough size from the text
    return 1 + (int)n->ToString().size() / 3;
}
void fresh(Src &s, Entry &t, Case &c) {
    GenOpts o;
    o.vars = {"x", "y", "xy"};
    o.bitOps = s.draw(6) == 5;
    o.numStyle = (int)s.draw(2);
    o.maxSize = 10;
    E e = genExpr(s, o);
    c.describe([&](std::ostream &q) { q << "  := " << show(e); });
    auto r = std::make_shared<Rec>();
    r->kind = Rec::BASE;
    r->base = e;
    t.n = toNode(e, &s);
    t.rec = r;
    t.e = e;
    t.size = size(e);
}

void history(Case &c) {
    resetConfig();
    Src &s = c.s;
    Pool p(P);
    std::string key;
    for (int i = 0; i < P; i++) {
        c.describe([&](std::ostream &q) { q << "entry " << i; });
        fresh(s, p[i], c);
        key += show(p[i].e) + ";";
        p[i].text = p[i].n->ToString();
    }
    int steps = s.size(8, 30), readHeld = 0;
    std::vector<int> touched;
    for (int t = 0; t < steps; t++) {
        touched.clear();
        int op = (int)s.draw(22), i = (int)s.draw(P), j = (int)s.draw(P), k = (int)s.draw(P);
        Op bo = (Op)((int)Op::ADD + (int)s.draw(5)), uo = (Op)((int)Op::POS + (int)s.draw(13));
        key += std::to_string(op) + "," + std::to_string(i) + std::to_string(j) + std::to_string(k) + ";";
        c.describe([&](std::ostream &q) { q << "step " << t << ": op " << op << " i=" << i << " j=" << j << " k=" << k << " binary " << (int)bo << " unary " << (int)uo; });
        auto done = [&](int x) { touched.push_back(x); };
        auto setBin = [&](Entry &t, const R &ra, const R &rb, const E &ea, const E &eb, int sz) {
            t.rec = mk(Rec::BIN, bo, ra, rb);
            t.e = ea && eb ? bin(bo, ea, eb) : nullptr;
            t.size = sz;
        };
        switch (op) {
        case 0: fresh(s, p[i], c); done(i); break;
        case 1: case 2: { // copy both
            if (p[i].size + p[j].size > MAXSIZE) break;
            ts::Node r = binary(bo, p[i].n, p[j].n);
            R ra = p[i].rec, rb = p[j].rec; E ea = p[i].e, eb = p[j].e; int sz = p[i].size + p[j].size + 1;
            p[k].n = std::move(r);
            setBin(p[k], ra, rb, ea, eb, sz);
            readHeld += k != i || k != j;
            done(k);
            break;
        }
        case 3: { // move one or both
            if (i == j || p[i].size + p[j].size > MAXSIZE) break;
            R ra = p[i].rec, rb = p[j].rec; E ea = p[i].e, eb = p[j].e; int sz = p[i].size + p[j].size + 1;
            int which = (int)s.draw(3);
            ts::Node r = which == 0 ? binary(bo, std::move(p[i].n), std::move(p[j].n)) : which == 1 ? binary(bo, p[i].n, std::move(p[j].n)) : binary(bo, std::move(p[i].n), p[j].n);
            if (which != 1) { REQUIRE(!p[i].n, "a moved-from operand still holds a tree"); fresh(s, p[i], c); done(i); }
            if (which != 2) { REQUIRE(!p[j].n, "a moved-from operand still holds a tree"); fresh(s, p[j], c); done(j); }
            p[k].n = std::move(r);
            setBin(p[k], ra, rb, ea, eb, sz);
            done(k);
            break;
        }
        case 4: case 5: case 6: { // compound, also with itself
            if (p[i].size + p[j].size > MAXSIZE) break;
            R ra = p[i].rec, rb = p[j].rec; E ea = p[i].e, eb = p[j].e; int sz = p[i].size + p[j].size + 1;
            compound(bo, p[i].n, p[j].n);
            setBin(p[i], ra, rb, ea, eb, sz);
            readHeld += i != j;
            done(i);
            break;
        }
        case 7: { // compound with a moved or temporary operand
            if (i == j || p[i].size + p[j].size > MAXSIZE) break;
            R ra = p[i].rec, rb = p[j].rec; E ea = p[i].e, eb = p[j].e; int sz = p[i].size + p[j].size + 1;
            if (s.coin()) {
                compound(bo, p[i].n, std::move(p[j].n));
                fresh(s, p[j], c);
                done(j);
            } else compound(bo, p[i].n, ts::Clone(p[j].n));
            setBin(p[i], ra, rb, ea, eb, sz);
            done(i);
            break;
        }
        case 8: case 9: { // unary
            R ra = p[i].rec; E ea = p[i].e; int sz = p[i].size + 1;
            if (op == 8) p[k].n = unary(uo, p[i].n), readHeld += k != i;
            else {
                ts::Node r = unary(uo, std::move(p[i].n));
                fresh(s, p[i], c);
                done(i);
                p[k].n = std::move(r);
            }
            p[k].rec = mk(Rec::UN, uo, ra, nullptr);
            p[k].e = ea ? un(uo, ea) : nullptr;
            p[k].size = sz;
            done(k);
            break;
        }
        case 10: { // clone, disjoint from its original
            if (k == i) break;
            p[k].n = ts::Clone(p[i].n);
            REQUIRE(p[k].n.get() != p[i].n.get() && p[k].n->Equal(p[i].n) && p[i].n->Equal(p[k].n), "a clone of ", p[i].text, " is not an equal, separate tree");
            p[k].rec = p[i].rec; p[k].e = p[i].e; p[k].size = p[i].size;
            readHeld++;
            done(k);
            break;
        }
        case 11: { // Move
            if (k == i) break;
            p[k].n = ts::Move(p[i].n);
            p[k].rec = p[i].rec; p[k].e = p[i].e; p[k].size = p[i].size;
            REQUIRE(!p[i].n, "Move left the source set");
            fresh(s, p[i], c);
            done(i); done(k);
            break;
        }
        case 12: { // assignment of the node itself
            switch (s.draw(4)) {
            case 0: *p[k].n = *p[i].n; readHeld += k != i; break; // k == i: self-assignment
            case 1: p[k].n = std::make_unique<ts::internal::NodeImpl>(*p[i].n); readHeld += k != i; break;
            case 2: {
                if (k == i) continue;
                *p[k].n = std::move(*p[i].n);
                p[k].rec = p[i].rec; p[k].e = p[i].e; p[k].size = p[i].size;
                fresh(s, p[i], c);
                done(i);
                break;
            }
            default: {
                if (k == i) continue;
                p[k].n = std::make_unique<ts::internal::NodeImpl>(std::move(*p[i].n));
                p[k].rec = p[i].rec; p[k].e = p[i].e; p[k].size = p[i].size;
                fresh(s, p[i], c);
                done(i);
                break;
            }
            }
            if (k != i && std::find(touched.begin(), touched.end(), i) == touched.end()) { p[k].rec = p[i].rec; p[k].e = p[i].e; p[k].size = p[i].size; }
            done(k);
            break;
        }
        case 13: { // Simplify in place
            ts::Simplify(p[i].n);
            p[i].rec = mk(Rec::SIMPLIFY, Op::NUM, p[i].rec, nullptr);
            p[i].e = nullptr;
            done(i);
            break;
        }
        case 14: case 15: { // Diff
            if (p[i].size > 60) break;
            std::string v = s.pick({"x", "y", "xy", "w"});
            int times = (int)s.range(1, 2);
            bool mv = op == 15;
            ts::Node r;
            R ra = p[i].rec;
            bool threw = false;
            try {
                if (mv) r = ts::Diff(ts::Clone(p[i].n), v, times);
                else r = ts::Diff(p[i].n, v, times);
            } catch (const std::runtime_error &) {
                threw = true;
            }
            c.label(threw ? "failed derivative" : "derivative");
            readHeld++;
            if (threw) break; // everything unchanged
            int sz = count(r);
            if (sz > MAXSIZE) break;
            p[k].n = std::move(r);
            p[k].rec = mk(Rec::DIFF, Op::NUM, ra, nullptr, v, times);
            p[k].e = nullptr;
            p[k].size = sz;
            done(k);
            break;
        }
        case 16: case 17: { // Subs
            std::string v = s.pick({"x", "y", "xy", "w"});
            if (p[i].size * p[j].size > 3000) break;
            ts::Node r = op == 16 ? ts::Subs(p[i].n, v, p[j].n) : ts::Subs(ts::Clone(p[i].n), v, p[j].n);
            R ra = p[i].rec, rb = p[j].rec;
            E e = p[i].e && p[j].e ? subst(p[i].e, {{v, p[j].e}}) : nullptr;
            int sz = count(r);
            if (sz > MAXSIZE) break;
            p[k].n = std::move(r);
            p[k].rec = mk(Rec::SUBS, Op::NUM, ra, rb, v);
            p[k].e = e;
            p[k].size = sz;
            readHeld++;
            done(k);
            break;
        }
        case 18: { // in-place evaluation, or its failure
            bool threw = false;
            try {
                p[i].n->Calc();
            } catch (const std::runtime_error &) {
                threw = true;
            }
            c.label(threw ? "failed Calc" : "Calc");
            if (threw) break;
            p[i].rec = mk(Rec::CALC, Op::NUM, p[i].rec, nullptr);
            if (p[i].e) p[i].e = num(eval(p[i].e, {}).v);
            p[i].size = 1;
            done(i);
            break;
        }
        case 19: { // const queries
            try { p[i].n->Vpa(); } catch (const std::runtime_error &) {}
            p[i].n->GetAllVarNames();
            if (p[i].e && p[j].e) {
                bool eq = p[i].n->Equal(p[j].n), want = same(p[i].e, p[j].e);
                REQUIRE(eq == want && p[j].n->Equal(p[i].n) == want, "Equal says ", eq, " for ", show(p[i].e), " and ", show(p[j].e));
            }
            try { ts::Parse(p[i].text + s.pick({")", "+", "", " 1", "("})); } catch (const std::runtime_error &) {}
            readHeld++;
            break;
        }
        case 20: { // near misses must not be equal
            if (!p[i].e) break;
            E e = p[i].e, m = e;
            switch (s.draw(6)) {
            case 4: case 5: m = nearMiss(s, e); break;
            case 0: m = un(Op::NEG, e); break;
            case 1: m = subst(e, {{"x", var("y")}}); break;
            case 2: m = e->r ? bin(e->op, e->r, e->l) : e; break;
            default: { // one literal changed in its last bit
                struct F { static E go(const E &e, int &k) {
                    if (e->op == Op::NUM) return k-- == 0 ? num(std::nextafter(e->v, 1e300)) : e;
                    if (e->op == Op::VAR) return e;
                    E l = go(e->l, k);
                    return e->r ? bin(e->op, l, go(e->r, k)) : un(e->op, l);
                } };
                int at = (int)s.draw(4);
                m = F::go(e, at);
            }
            }
            ts::Node o = toNode(m);
            bool want = same(e, m);
            c.label(want ? "equal pair" : "unequal pair");
            REQUIRE(p[i].n->Equal(o) == want && o->Equal(p[i].n) == want, "Equal is ", !want, " for ", show(e), " and ", show(m));
            break;
        }
        default: { // Parse
            if (!p[i].e || containsBitOp(p[i].e)) break;
            ts::Node a = ts::Parse(p[i].text);
            a = ts::Parse(a->ToString());
            if (s.coin()) std::swap(a, p[k].n), std::swap(a, p[k].n);
            break;
        }
        }
        for (int x = 0; x < P; x++) {
            bool mine = std::find(touched.begin(), touched.end(), x) != touched.end();
            REQUIRE(p[x].n != nullptr, "entry ", x, " lost its tree");
            p[x].n->CheckParent();
            std::string now = p[x].n->ToString();
            if (!mine) REQUIRE(now == p[x].text, "step ", t, " changed entry ", x, " from ", p[x].text, " to ", now);
            p[x].text = now;
            if (!mine) continue;
            ts::Node again = rebuild(p[x].rec);
            REQUIRE(p[x].n->Equal(again) && again->Equal(p[x].n), "entry ", x, " is ", now, " but its history gives ", again->ToString());
            if (p[x].e) REQUIRE(sameNode(p[x].n, p[x].e), "entry ", x, " is ", now, " instead of ", show(p[x].e));
        }
    }
    // drop the entries in a random order, checking the survivors
    for (int x = 0; x < P; x++) {
        int i = (int)s.draw(P);
        p[i].n.reset();
        for (auto &q : p) if (q.n) REQUIRE(q.n->ToString() == q.text, "destroying an expression changed another one");
    }
    c.key = key;
    c.nontrivial = steps >= 4 && readHeld > 0;
}
} // namespace

void property(Case &c) {
    history(c);
    // again with the same choices: what it allocates it must release
    std::vector<uint64_t> ch = c.s.choices();
    long before, after;
    {
        before = gLive;
        {
            Src s(ch);
            Case d(s, false);
            history(d);
        }
        after = gLive;
    }
    REQUIRE(after <= before, "the history leaks ", after - before, " allocations");
}
