// Executes a program of prog.h through the public API
#pragma once
#include "prog.h"

struct Cfg {
    uint32_t flags = 0;
    int sym_loop = 4, sym_cond = 4, sym_call = 4;  // probability (of 4) of symbolic execution
    int eval = 0;                                  // probability (of 8) of an evaluation after a statement
    int opaque = 4;                                // probability (of 4) that an input is an evaluated array
    uint64_t seed = 0; bool modes = false;         // vary the mode of scatter-reductions
    uint32_t cores = 8, block = 16;                // size of the thread pool, desired number of elements per block
    std::string str() const { char b[200]; snprintf(b, sizeof b, "flags=%x loop=%d cond=%d call=%d eval=%d opaque=%d cores=%u block=%u seed=%llu", flags, sym_loop, sym_cond, sym_call, eval, opaque, cores, block, (unsigned long long) seed); return b; }
};

struct Env { std::vector<V> s, x; };

struct Exec {
    const Program &P; Cfg C; Rng g;
    std::vector<V> bufs, alias;                    // current contents of memory, additional references to its initial contents
    std::vector<ReduceMode> mode;
    std::map<std::pair<int, ll>, V> opq;
    bool frozen = false;
    struct Ctx { const std::vector<VT> *types; const std::vector<int> *alen; bool sym; bool infn; };

    Exec(const Program &P, Cfg C) : P(P), C(C), g(C.seed) {}

    VT otype(const std::vector<VT> &T, const Stmt &s, int i) {
        static const std::set<std::string> cmp = { "lt", "le", "gt", "ge", "eq", "neq" };
        if (s.k == "op") {
            if (cmp.count(s.op)) return (VT) s.b;
            if (s.op == "select" && i == 0) return VT::Bool;
            return T[s.d];
        }
        abort();
    }
    void need(VT t, const Opd &o) { if (o.k == 2 && !opq.count({ (int) t, o.v })) opq[{ (int) t, o.v }] = vmem(t, { o.v }); }
    void collect(const std::vector<VT> &T, const std::vector<VT> &AT, const Block &b) {
        for (auto &sp : b) {
            const Stmt &s = *sp;
            if (s.k == "op" && s.op != "cast" && s.op != "test") for (int i = 0; i < s.na; ++i) need(otype(T, s, i), s.a[i]);
            else if (s.k == "sca") need(P.bufs[s.b].t, s.a[0]);
            else if (s.k == "awr" || s.k == "ain") need(AT[s.x], s.a[0]);
            else if (s.k == "ai2") { need(AT[s.x], s.a[0]); need(AT[s.x], s.a[1]); }
            else if (s.k == "if" || s.k == "wh") need(VT::Bool, s.a[0]);
            else if (s.k == "get") for (size_t k = 0; k < s.vals.size(); ++k) if (s.vals[k] >= 0 && (s.c >> k & 1)) { Opd o; o.k = 2; o.v = s.vals[k]; need(T[s.d], o); }
            need(VT::UInt32, s.i); need(VT::Bool, s.m);
            collect(T, AT, s.p); collect(T, AT, s.t); collect(T, AT, s.e);
        }
    }
    std::vector<VT> atypes() { std::vector<VT> r; for (auto &a : P.arrs) r.push_back(a.t); return r; }
    void prepare() {
        collect(P.types, atypes(), P.code);
        for (auto &f : P.fns) {
            for (size_t k = 0; k < f.init.size(); ++k) need(f.types[f.nin + k], f.init[k]);
            for (auto &I : f.inst) { collect(f.types, f.atype, I.b); for (size_t k = 0; k < I.r.size(); ++k) need(f.rt[k], I.r[k]); }
        }
    }

    V get(const Env &E, const Opd &o, VT t) {
        if (o.k == 0) return E.s[o.v];
        if (o.k == 1) return vlit(t, o.v);
        return opq.at({ (int) t, o.v });
    }
    static V clip(V v, VT t) { V c = vlit(t, 1000); return V::steal(jit_var_min(v.i, c.i)); }

    V op(const Env &E, const std::vector<VT> &T, const Stmt &s) {
        VT t = T[s.d]; V a[3];
        if (s.op == "cast" || s.op == "test") { V x = E.s[s.a[0].v]; return V::steal(jit_var_cast(x.i, t, 0)); }
        for (int i = 0; i < s.na; ++i) a[i] = get(E, s.a[i], otype(T, s, i));
        uint32_t x = a[0].i, y = a[1].i, z = a[2].i; const std::string &o = s.op;
        if (o == "add") { V r = V::steal(jit_var_add(x, y)); return clip(r, t); }
        if (o == "mul") { V r = V::steal(jit_var_mul(x, y)); return clip(r, t); }
        if (o == "fma") { V r = V::steal(jit_var_fma(x, y, z)); return clip(r, t); }
        if (o == "sub") {
            if (isu(t)) { V p = V::steal(jit_var_max(x, y)), q = V::steal(jit_var_min(x, y)); return V::steal(jit_var_sub(p.i, q.i)); }
            V p = V::steal(jit_var_sub(x, y)); return V::steal(jit_var_abs(p.i));
        }
        if (o == "inc") { V c = vlit(t, 1); return V::steal(jit_var_add(x, c.i)); }
        if (o == "min") return V::steal(jit_var_min(x, y));
        if (o == "max") return V::steal(jit_var_max(x, y));
        if (o == "mod") return V::steal(jit_var_mod(x, y));
        if (o == "iand" || o == "and") return V::steal(jit_var_and(x, y));
        if (o == "or") return V::steal(jit_var_or(x, y));
        if (o == "xor") return V::steal(jit_var_xor(x, y));
        if (o == "lnot") return V::steal(jit_var_not(x));
        if (o == "select") return V::steal(jit_var_select(x, y, z));
        if (o == "lt") return V::steal(jit_var_lt(x, y));
        if (o == "le") return V::steal(jit_var_le(x, y));
        if (o == "gt") return V::steal(jit_var_gt(x, y));
        if (o == "ge") return V::steal(jit_var_ge(x, y));
        if (o == "eq") return V::steal(jit_var_eq(x, y));
        if (o == "neq") return V::steal(jit_var_neq(x, y));
        abort();
    }
    V index_mod(const V &x, size_t n) { V c = vlit(VT::UInt32, (ll) n); return V::steal(jit_var_mod(x.i, c.i)); }
    bool p4(int k) { return (int) g.below(4) < k; }

    struct Rec { // recording session
        uint32_t cp; bool ok = false;
        Rec(const char *n) { cp = jit_record_begin(L, n); }
        ~Rec() { jit_record_end(L, cp, !ok); }
    };
    struct Stash { // (see jit_var_stash_ref(): in-place updates of targets that are part of the state of a control flow operation)
        std::vector<uint64_t> h;
        Stash(Exec &X) { if (X.g.chance(1, 2)) for (V &v : X.bufs) h.push_back(jit_var_stash_ref(v.i)); }
        ~Stash() { for (uint64_t v : h) jit_var_unstash_ref(v); }
    };
    struct Push { Push(const V &m) { jit_var_mask_push(L, m.i); } ~Push() { jit_var_mask_pop(L); } };

    void run(Env &E, const Block &b, const Ctx &c) {
        for (auto &sp : b) {
            step(E, *sp, c);
            if (!c.sym && (int) g.below(8) < C.eval) {
                if (g.chance(1, 2)) jit_eval();
                else { const V &v = E.s[g.below((uint32_t) E.s.size())]; if (g.chance(1, 2)) jit_var_eval(v.i); else { jit_var_schedule(v.i); jit_eval(); } }
            }
        }
    }

    void step(Env &E, const Stmt &s, const Ctx &c) {
        const std::vector<VT> &T = *c.types;
        if (s.k == "op") { E.s[s.d] = op(E, T, s); return; }
        if (s.k == "gat" || s.k == "gpk") {
            const Buf &B = P.bufs[s.b]; V ix = get(E, s.i, VT::UInt32), m = get(E, s.m, VT::Bool);
            size_t n = s.k == "gpk" ? s.ds.size() : 1; V i2 = index_mod(ix, B.v.size() / n);
            if (n == 1) E.s[s.d] = V::steal(jit_var_gather(bufs[s.b].i, i2.i, m.i));
            else { uint32_t out[8]; jit_var_gather_packet(n, bufs[s.b].i, i2.i, m.i, out); for (size_t k = 0; k < n; ++k) E.s[s.ds[k]] = V::steal(out[k]); }
            return;
        }
        if (s.k == "sca") {
            const Buf &B = P.bufs[s.b]; V ix = get(E, s.i, VT::UInt32), m = get(E, s.m, VT::Bool), v = get(E, s.a[0], B.t);
            V sum = V::steal(jit_var_add(ix.i, E.s[0].i)); V i2 = index_mod(sum, B.v.size());
            V lim = vlit(B.t, 15); v = V::steal(jit_var_min(v.i, lim.i));
            if (s.c) { V one = vlit(B.t, 0); v = V::steal(jit_var_max(v.i, one.i)); }
            ReduceOp ro = B.op == "add" ? ReduceOp::Add : B.op == "min" ? ReduceOp::Min : ReduceOp::Max;
            bufs[s.b] = V::steal(jit_var_scatter(bufs[s.b].i, v.i, i2.i, m.i, ro, mode[s.b]));
            return;
        }
        if (s.k == "get") {
            V ix = get(E, s.i, VT::UInt32), m = get(E, s.m, VT::Bool); V i2 = index_mod(ix, s.vals.size() + 1); VT t = T[s.d];
            std::vector<V> keep; std::vector<uint32_t> vals;
            for (size_t k = 0; k < s.vals.size(); ++k) { if (s.vals[k] < 0) { vals.push_back(0); continue; } keep.push_back((s.c >> k & 1) ? opq.at({ (int) t, s.vals[k] }) : vlit(t, s.vals[k])); vals.push_back(keep.back().i); }
            E.s[s.d] = V::steal(jit_var_call_getter(t, (uint32_t) vals.size(), vals.data(), i2.i, m.i));
            return;
        }
        if (s.k == "ard") {
            V ix = get(E, s.i, VT::UInt32), m = vlit(VT::Bool, 1); V i2 = index_mod(ix, (*c.alen)[s.x]);
            E.s[s.d] = V::steal(jit_array_read(E.x[s.x].i, i2.i, m.i)); return;
        }
        if (s.k == "awr") {
            VT t = (VT) jit_var_type(E.x[s.x].i); V ix = get(E, s.i, VT::UInt32), m = get(E, s.m, VT::Bool), v = get(E, s.a[0], t); V i2 = index_mod(ix, (*c.alen)[s.x]);
            E.x[s.x] = V::steal(jit_array_write(E.x[s.x].i, i2.i, v.i, m.i)); return;
        }
        if (s.k == "ain") {
            VT t = (VT) jit_var_type(E.x[s.x].i); V v = get(E, s.a[0], t); size_t n = jit_var_size(E.x[s.x].i), m = std::max(n, jit_var_size(v.i));
            V a = V::steal(jit_array_create(L, t, m, (*c.alen)[s.x]));
            if (jit_var_size(v.i) != m) v = V::steal(jit_var_resize(v.i, m));
            E.x[s.x] = V::steal(jit_array_init(a.i, v.i)); return;
        }
        if (s.k == "ai2") { // initialize the same storage twice
            VT t = (VT) jit_var_type(E.x[s.x].i); V v = get(E, s.a[0], t), w = get(E, s.a[1], t); size_t m = std::max(std::max(jit_var_size(E.x[s.x].i), jit_var_size(E.x[s.b].i)), std::max(jit_var_size(v.i), jit_var_size(w.i)));
            V a = V::steal(jit_array_create(L, t, m, (*c.alen)[s.x]));
            if (jit_var_size(v.i) != m) v = V::steal(jit_var_resize(v.i, m));
            if (jit_var_size(w.i) != m) w = V::steal(jit_var_resize(w.i, m));
            E.x[s.x] = V::steal(jit_array_init(a.i, v.i)); E.x[s.b] = V::steal(jit_array_init(g.chance(1, 2) ? a.i : E.x[s.x].i, w.i)); return;
        }
        if (s.k == "acp") { E.x[s.x] = E.x[s.b]; return; }
        if (s.k == "if") return cond(E, s, c);
        if (s.k == "wh") return loop(E, s, c);
        if (s.k == "call") return call(E, s, c);
        abort();
    }

    void cond(Env &E, const Stmt &s, const Ctx &c) {
        V cv = get(E, s.a[0], VT::Bool); size_t n = jit_var_size(cv.i);
        V nv = V::steal(jit_var_not(cv.i));
        if (c.sym || p4(C.sym_cond) || !s.ax.empty()) {
            Stash sh(*this); Rec rec(nullptr);
            V ct = V::steal(jit_var_mask_apply(cv.i, (uint32_t) n)), cf = V::steal(jit_var_mask_apply(nv.i, (uint32_t) n));
            V h = V::steal(jit_var_cond_start("cond", c.sym, ct.i, cf.i));
            Ctx c2 = c; c2.sym = true; V hs[2];
            for (int k = 0; k < 2; ++k) {
                Env E2 = E; { Push m(k ? cf : ct); run(E2, k ? s.e : s.t, c2); }
                std::vector<uint32_t> rv; for (int d : s.ds) rv.push_back(E2.s[d].i); for (int d : s.ax) rv.push_back(E2.x[d].i);
                hs[k] = V::steal(jit_var_cond_append(h.i, rv.data(), rv.size()));
            }
            std::vector<uint32_t> out(s.ds.size() + s.ax.size());
            jit_var_cond_end(h.i, out.data()); rec.ok = true; size_t q = 0;
            for (int d : s.ds) E.s[d] = V::steal(out[q++]);
            for (int d : s.ax) E.x[d] = V::steal(out[q++]);
        } else {
            Env R[2];
            for (int k = 0; k < 2; ++k) { R[k] = E; V m = V::steal(jit_var_mask_apply(k ? nv.i : cv.i, (uint32_t) n)); Push ps(m); run(R[k], k ? s.e : s.t, c); }
            for (int d : s.ds) E.s[d] = V::steal(jit_var_select(cv.i, R[0].s[d].i, R[1].s[d].i));
        }
    }

    void loop(Env &E, const Stmt &s, const Ctx &c) {
        if (c.sym || p4(C.sym_loop) || !s.ax.empty()) {
            Stash sh(*this); Rec rec(nullptr); Ctx c2 = c; c2.sym = true;
            std::vector<uint32_t> idx; size_t ns = s.ds.size(), na = s.ax.size();
            for (int d : s.ds) idx.push_back(E.s[d].i); for (int d : s.ax) idx.push_back(E.x[d].i);
            V lp = V::steal(jit_var_loop_start("loop", c.sym, idx.size(), idx.data()));
            std::vector<V> st; for (uint32_t i : idx) st.push_back(V::steal(i));
            while (true) {
                Env E2 = E; for (size_t k = 0; k < ns; ++k) E2.s[s.ds[k]] = st[k]; for (size_t k = 0; k < na; ++k) E2.x[s.ax[k]] = st[ns + k];
                run(E2, s.p, c2);
                V cv = get(E2, s.a[0], VT::Bool); V act = V::steal(jit_var_mask_apply(cv.i, (uint32_t) jit_var_size(cv.i)));
                V lc = V::steal(jit_var_loop_cond(lp.i, act.i));
                { Push ps(act); run(E2, s.t, c2); }
                std::vector<uint32_t> o; std::vector<V> keep;
                for (int d : s.ds) { o.push_back(E2.s[d].i); keep.push_back(E2.s[d]); } for (int d : s.ax) { o.push_back(E2.x[d].i); keep.push_back(E2.x[d]); }
                int rv = jit_var_loop_end(lp.i, lc.i, o.data(), rec.cp);
                for (size_t k = 0; k < o.size(); ++k) st[k] = V::steal(o[k]);
                if (rv) break;
            }
            rec.ok = true;
            for (size_t k = 0; k < ns; ++k) E.s[s.ds[k]] = st[k]; for (size_t k = 0; k < na; ++k) E.x[s.ax[k]] = st[ns + k];
        } else {
            Env S0 = E;
            while (true) {
                Env E2 = E; for (int d : s.ds) E2.s[d] = S0.s[d];
                for (int d : s.ds) jit_var_schedule(S0.s[d].i);
                run(E2, s.p, c);
                V cv = get(E2, s.a[0], VT::Bool); V act = V::steal(jit_var_mask_apply(cv.i, (uint32_t) jit_var_size(cv.i)));
                jit_var_schedule(act.i); jit_eval();
                if (!jit_var_any(act.i)) break;
                { Push ps(act); run(E2, s.t, c); }
                for (int d : s.ds) S0.s[d] = V::steal(jit_var_select(act.i, E2.s[d].i, S0.s[d].i));
            }
            for (int d : s.ds) E.s[d] = S0.s[d];
        }
    }

    struct Self {
        uint32_t v, i;
        Self(uint32_t id) { uint32_t t; jit_var_self(L, &v, &t); i = t; if (i) jit_var_inc_ref(i); jit_var_set_self(L, id, 0); }
        ~Self() { jit_var_set_self(L, v, i); if (i) jit_var_dec_ref(i); }
    };

    void body(const Fn &f, int k, const std::vector<V> &in, std::vector<V> &out, bool sym, size_t n) {
        Env F; F.s = in; for (size_t q = 0; q < f.init.size(); ++q) F.s.push_back(get(F, f.init[q], f.types[f.nin + q]));
        for (size_t q = 0; q < f.alen.size(); ++q) { V a = V::steal(jit_array_create(L, f.atype[q], 1, f.alen[q])), z = vlit(f.atype[q], 0); F.x.push_back(V::steal(jit_array_init(a.i, z.i))); }
        Ctx c2; c2.types = &f.types; c2.alen = &f.alen; c2.sym = sym; c2.infn = true;
        run(F, f.inst[k].b, c2);
        for (size_t q = 0; q < f.rt.size(); ++q) out.push_back(get(F, f.inst[k].r[q], f.rt[q]));
    }

    void call(Env &E, const Stmt &s, const Ctx &c) {
        const Fn &f = P.fns[s.f]; size_t ni = f.inst.size(), no = f.rt.size();
        V x = get(E, s.i, VT::UInt32), m = get(E, s.m, VT::Bool); V j = index_mod(x, ni + 1);
        V self = vlit(VT::UInt32, 0);
        bool dense = f.ids.back() == (int) ni;
        if (dense) self = j;
        else for (size_t k = 0; k < ni; ++k) { V kk = vlit(VT::UInt32, (ll) k + 1), id = vlit(VT::UInt32, f.ids[k]); V e = V::steal(jit_var_eq(j.i, kk.i)); self = V::steal(jit_var_select(e.i, id.i, self.i)); }
        std::vector<V> args; for (int a : s.as) args.push_back(E.s[a]);
        if (c.sym || p4(C.sym_call)) {
            char nm[16]; snprintf(nm, sizeof nm, "f%d", s.f);
            std::vector<uint32_t> cps(ni + 1), ids(ni), rv, in, out(no + 1); std::vector<V> keep;
            jit_new_scope(L);
            Rec rec(nm); uint32_t scope = jit_new_scope(L);
            std::vector<V> ci; for (V &a : args) { ci.push_back(V::steal(jit_var_call_input(a.i))); in.push_back(ci.back().i); }
            {
                V cm = V::steal(jit_var_call_mask(L)); Push ps(cm);
                for (size_t k = 0; k < ni; ++k) {
                    jit_set_scope(L, scope); cps[k] = jit_record_checkpoint(L);
                    Self sf((uint32_t) f.ids[k]); ids[k] = (uint32_t) f.ids[k];
                    std::vector<V> o; body(f, (int) k, ci, o, true, 1);
                    for (V &v : o) { keep.push_back(v); rv.push_back(v.i); }
                }
                jit_set_scope(L, scope); cps[ni] = jit_record_checkpoint(L);
            }
            jit_new_scope(L);
            jit_var_call(nm, c.sym, self.i, m.i, (uint32_t) ni, ids.back(), ids.data(), (uint32_t) in.size(), in.data(), (uint32_t) rv.size(), rv.data(), cps.data(), out.data());
            rec.ok = true;
            for (size_t k = 0; k < no; ++k) E.s[s.ds[k]] = V::steal(out[k]);
        } else {
            // Evaluate, reorder by instance, and call one function at a time
            size_t n = jit_var_size(self.i); n = std::max(n, jit_var_size(m.i)); for (V &a : args) n = std::max(n, jit_var_size(a.i));
            V mm = V::steal(jit_var_mask_apply(m.i, (uint32_t) n)); n = std::max(n, jit_var_size(mm.i));
            V z = vlit(VT::UInt32, 0, n); V sv = V::steal(jit_var_select(mm.i, self.i, z.i));
            if (jit_var_size(sv.i) != n) sv = V::steal(jit_var_resize(sv.i, n));
            std::vector<V> res; for (size_t k = 0; k < no; ++k) { V q = vlit(f.rt[k], 0, n); res.push_back(q); }
            for (V &a : args) jit_var_schedule(a.i);
            jit_var_schedule(sv.i); jit_eval();
            uint32_t nb = (uint32_t) f.ids.back(); CallBucket *bk = jit_var_call_reduce(L, nullptr, nullptr, sv.i, &nb);
            V tr = vlit(VT::Bool, 1);
            for (uint32_t b = 0; b < nb; ++b) {
                int k = -1; for (size_t q = 0; q < ni; ++q) if ((uint32_t) f.ids[q] == bk[b].id) k = (int) q;
                if (k < 0) { if (bk[b].id == 0) continue; throw std::runtime_error("unexpected bucket"); }
                V perm = V::borrow(bk[b].index); std::vector<V> in, o;
                V dm = V::steal(jit_var_mask_default(L, jit_var_size(perm.i))); Push ps(dm); // the reordered lanes are all active
                for (V &a : args) in.push_back(V::steal(jit_var_gather(a.i, perm.i, tr.i)));
                body(f, k, in, o, false, jit_var_size(perm.i));
                for (size_t q = 0; q < no; ++q) res[q] = V::steal(jit_var_scatter(res[q].i, o[q].i, perm.i, tr.i, ReduceOp::Identity, ReduceMode::Permute));
            }
            for (size_t q = 0; q < no; ++q) E.s[s.ds[q]] = res[q];
        }
    }

    // Inputs in program order: slots, then buffers
    Env inputs() {
        Env E;
        for (size_t k = 0; k < P.types.size(); ++k) {
            const std::vector<ll> &v = P.init[k];
            if (k == 0) { E.s.push_back(p4(C.opaque) ? vmem(VT::UInt32, v) : V::steal(jit_var_counter(L, P.n))); continue; }
            if (v.size() == 1 && P.n > 1 && !p4(C.opaque)) E.s.push_back(vlit(P.types[k], v[0]));
            else E.s.push_back(vmem(P.types[k], v));
        }
        static const ReduceMode M[] = { ReduceMode::Auto, ReduceMode::Direct, ReduceMode::Local, ReduceMode::Expand };
        for (auto &b : P.bufs) {
            bufs.push_back(vmem(b.t, b.v));
            alias.push_back(g.chance(1, 3) ? bufs.back() : V());
            mode.push_back(C.modes ? M[g.below(4)] : ReduceMode::Auto);
        }
        return E;
    }
    void body_top(Env &E) {
        std::vector<int> alen; for (auto &a : P.arrs) { alen.push_back(a.len); E.x.push_back(V::steal(jit_array_create(L, a.t, P.n, a.len))); }
        Ctx c; c.types = &P.types; c.alen = &alen; c.sym = false; c.infn = false;
        run(E, P.code, c);
        E.x.clear();
    }
};
