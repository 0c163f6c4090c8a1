"""C31 effects: what the library touches besides what it is given.

Effect analysis over the call graph of every function of the crate (all bodies; every external function a body names).
External functions are classified by their path; the path argument of a file operation is followed back through
transparent operations to a parameter, and from there through every call site to a public function's parameter."""
import mir
import report

# transparent for "the path given": the same path in another wrapping
SAME = ("as_ref", "deref", "borrow", "clone", "into", "from", "to_path_buf", "to_owned", "as_path", "new", "into_boxed_path", "as_os_str", "to_os_string", "as_mut", "branch", "as_str", "to_string", "into_iter", "iter", "next", "unwrap")
OPENERS = ("std::fs::File::open", "std::fs::read", "std::fs::metadata", "std::path::Path::exists", "std::fs::exists", "std::path::Path::is_file", "std::fs::read_to_string")
CREATORS = ("std::fs::File::create", "std::fs::File::create_new", "std::fs::write", "std::fs::File::create_buffered")
MODE = ("std::fs::OpenOptions::",)
FORBIDDEN = (
    ("std::env::", "the environment"), ("std::net::", "the network"), ("std::process::", "a process"), ("std::thread::", "a thread or thread-local state"),
    ("std::io::_print", "standard output"), ("std::io::_eprint", "standard error"), ("std::io::stdout", "standard output"), ("std::io::stderr", "standard error"), ("std::io::stdin", "standard input"),
    ("std::io::Stdout", "standard output"), ("std::io::Stderr", "standard error"), ("std::io::Stdin", "standard input"),
    ("std::sync::atomic::", "state kept between calls"), ("core::sync::atomic::", "state kept between calls"), ("std::sync::Mutex", "state kept between calls"), ("std::sync::RwLock", "state kept between calls"),
    ("std::sync::poison::", "state kept between calls"), ("std::sync::mpsc", "a thread"), ("std::os::", "the operating system"), ("std::panic::catch_unwind", "panics"), ("std::panic::set_hook", "the panic hook"),
    ("std::ptr::read_volatile", "memory of its own"), ("std::ptr::write_volatile", "memory of its own"))
CLOCK = ("chrono::Local::now", "chrono::Utc::now", "std::time::SystemTime::now", "std::time::Instant::now", "chrono::offset::Local::now", "chrono::offset::Utc::now")
RANDOM = ("uuid::v4::", "rand::", "std::hash::RandomState::new", "std::collections::hash_map::RandomState", "std::hash::random::", "fastrand::", "getrandom::")
HASHED = ("std::collections::HashMap", "std::collections::HashSet", "std::collections::hash_map::", "std::collections::hash_set::")
ITERS = ("keys", "values", "values_mut", "iter", "iter_mut", "drain", "into_keys", "into_values", "retain")
SORTS = ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key", "sorted", "sorted_by", "sorted_by_key", "sorted_unstable", "sorted_unstable_by", "sorted_unstable_by_key", "sorted_by_cached_key", "is_sorted")
UNORDERED = ("any", "all", "count", "max", "min", "max_by_key", "min_by_key", "sum", "len", "contains", "is_empty")


def last(n):
    return n.rsplit("::", 1)[-1]


def is_path_fn(n):
    return n in OPENERS or n in CREATORS or n.startswith("std::fs::") or n.startswith("tokio::fs")


def default_like(b):
    """gives a new record its default values"""
    return b.method in ("default", "set_defaults", "new") or b.name.endswith("::default")


class Flow:
    """where the operand of a call comes from: {("param", i)} | {("const",)} | {("call", name)} | {("other", what)}"""

    def __init__(self, p, b):
        self.p, self.b = p, b
        self.defs = {}
        for blk in b.blocks:
            if blk is None:
                continue
            for s in blk[0]:
                pl, rv = s[0], s[1]
                self.defs.setdefault(pl[0], []).append(("st", rv))
            t = blk[1]
            if t[0] == "call" and t[3]:
                self.defs.setdefault(t[3][0], []).append(("call", t))

    def op(self, o, seen=frozenset()):
        if o[0] in ("c", "m"):
            return self.local(o[1][0], seen)
        return {("const",)}

    def local(self, l, seen=frozenset()):
        if l in seen:
            return set()
        seen = seen | {l}
        out = set()
        if 1 <= l <= self.b.argc:
            out.add(("param", l))
        for k, d in self.defs.get(l, ()):
            if k == "st":
                rv = d
                if rv[0] == "use":
                    out |= self.op(rv[1], seen)
                elif rv[0] in ("ref", "addr", "copyref"):
                    out |= self.local(rv[1][0], seen)
                elif rv[0] == "cast":
                    for x in rv[1:]:
                        if isinstance(x, (list, tuple)) and x and x[0] in ("c", "m", "k"):
                            out |= self.op(x, seen)
                else:
                    out.add(("other", str(rv[0])))
            else:
                f = callee(self.p, d)
                n = f["name"] if f else "?"
                if f and last(n) in SAME and d[2]:
                    for a in d[2][:1]:
                        out |= self.op(a, seen)
                else:
                    out.add(("call", n))
        return out


def callee(p, t):
    o = t[1]
    if o[0] == "k" and isinstance(o[1][1], list) and o[1][1][0] == "fn":
        return p.fns[o[1][1][1]]
    return None


def calls(p, b):
    for i, blk in enumerate(b.blocks):
        if blk is not None and blk[1][0] == "call":
            f = callee(p, blk[1])
            if f:
                yield f, blk[1]


def concrete(t):
    return t[0] not in ("param", "dyn", "alias", "opaque", "ref", "infer", "?") and not (t[0] == "adt" and t[1] == "std::boxed::Box")


def callees(p, b):
    """as Prog.callees, but an unresolved trait method on a known type is only called on that type's implementation"""
    r = b.__dict__.get("_callees31")
    if r is None:
        r = set(b._clos) if hasattr(b, "_clos") else (p.refs(b), set(b._clos))[1]
        for f in p.refs(b):
            k = f.get("rkey") if f.get("rkey") in p.bodies else f["key"]
            if k in p.bodies:
                r.add(k)
            if f.get("trait") and f.get("rkey") not in p.bodies:
                m = last(f["name"])
                self_ty = f["args"][0] if f["args"] else None
                for ty, ms in p.impls.get(mir.norm(f["trait"]), []):
                    if ms.get(m) in p.bodies and (self_ty is None or not concrete(self_ty) or self_ty[:2] == ty[:2]):
                        r.add(ms[m])
        b._callees31 = r
    return r


def reach(p, roots):
    return reach_cut(p, roots, lambda b: False)


def sites_of(p):
    s = {}
    for b in p.bodies.values():
        for f, t in calls(p, b):
            k = f.get("rkey") if f.get("rkey") in p.bodies else f["key"]
            if k in p.bodies:
                s.setdefault(k, []).append((b, t))
    return s


def run(p, rep):
    rep.rule = "effects: every function an external effect can be reached through (files, environment, output streams, network, processes, threads, state between calls) is named by no function of the library, except File::open and File::create and their like; paths: the path of every file operation is a public function's path parameter, passed on unchanged; files are created truncated, opened for reading by loads and created by saves; clock and random ids are used for the defaults of new records only, and by no save; hash order: whatever is taken out of a hash map or set in its own order is sorted or used without regard to order"
    sites = sites_of(p)
    bodies = [b for b in p.bodies.values()]
    rep.functions |= {b.name for b in bodies}
    nfile = nclock = nhash = 0
    ext = set()
    for b in bodies:
        for f in p.refs(b):
            n = f["name"]
            if f["key"] in p.bodies:
                continue
            ext.add(n)
            why = None
            for pre, what in FORBIDDEN:
                if n.startswith(pre):
                    why = what
            if why is None and n.startswith("std::fs::") and not (n in OPENERS or n in CREATORS or n.startswith(MODE) or n.startswith("std::fs::File::") or n.startswith("std::fs::Metadata::")):
                why = "files besides the one it was given"
            if n in ("std::fs::File::set_len", "std::fs::File::set_permissions", "std::fs::File::set_modified", "std::fs::File::set_times"):
                why = "a file's length or attributes"
            if n.startswith("std::path::Path::") and last(n) in ("read_dir", "canonicalize", "read_link"):
                why = "files besides the one it was given"
            rep.check(why is None, "effects", "%s|%s" % (b.name, n), b.span, "%s uses %s (%s)" % (b.name, n, why))
    # static mut and the like
    for b in bodies:
        for blk in b.blocks:
            if blk is None:
                continue
            for s in blk[0]:
                if static_mut(p, s[1]):
                    rep.bad("effects", "%s|static" % b.name, s[2] if len(s) > 2 else b.span, "%s uses a mutable static (state kept between calls)" % b.name)
    # paths
    loads = reach(p, [b.key for b in bodies if b.isfn and b.vis == "pub" and b.method.startswith("load")])
    saves = reach(p, [b.key for b in bodies if b.isfn and b.vis == "pub" and b.method.startswith("save")])
    for b in bodies:
        fl = None
        modes = set()
        for f, t in calls(p, b):
            n = f["name"]
            if n.startswith(MODE):
                modes.add(last(n))
            if not (n in OPENERS or n in CREATORS or n == "std::fs::OpenOptions::open"):
                continue
            nfile += 1
            fl = fl or Flow(p, b)
            arg = t[2][1] if n.endswith("OpenOptions::open") else t[2][0]
            probs = source(p, sites, b, fl.op(arg), set())
            und = [x for k, x in probs if k == "und"]
            bad = [x for k, x in probs if k == "bad"]
            if und and not bad:
                report.und("path of %s in %s: %s" % (n, b.name, und[0]))
                continue
            rep.check(not bad, "paths", "%s|%s" % (b.name, last(n)), t[5] if len(t) > 5 else b.span, "the path %s opens in %s is not the one given: %s" % (n, b.name, bad[0] if bad else ""))
            if n in CREATORS:
                rep.check(b.key not in loads or b.key in saves, "paths", "%s|load creates" % b.name, b.span, "a load creates a file in %s" % b.name)
        if "write" in modes or "append" in modes or "create" in modes:
            ok = "truncate" in modes or "create_new" in modes
            rep.check(ok and "append" not in modes, "paths", "%s|mode" % b.name, b.span, "%s opens a file for writing without truncating it: an older, longer file keeps its end" % b.name)
    # clock and random ids
    src = {}
    for b in bodies:
        for f in p.refs(b):
            if f["name"] in CLOCK or any(f["name"].startswith(x) for x in RANDOM):
                src.setdefault(b.key, f["name"])
    free = reach_cut(p, [b.key for b in bodies if b.isfn and b.vis == "pub" and not default_like(b)], default_like)
    for k, n in sorted(src.items()):
        b = p.bodies[k]
        nclock += 1
        rep.check(k not in free, "clock", "%s|%s" % (b.name, n), b.span, "%s uses %s and is reached by other ways than the defaults of a new record: %s" % (b.name, n, path_to(p, k, default_like)))
        rep.check(k not in saves, "clock", "%s|save" % b.name, b.span, "a save uses %s through %s: the same drawing gives different files" % (n, b.name))
    # hash order
    for b in bodies:
        its = hash_iters(p, b)
        if not its:
            continue
        nhash += 1
        names = {last(f["name"]) for f in p.refs(b)}
        up = set()
        for c, _ in sites.get(b.key, ()):
            up |= {last(f["name"]) for f in p.refs(c)}
        btree = any("BTree" in f["name"] or any("BTree" in str(a) for a in f["args"]) for f in p.refs(b))
        for n, nsort in its:
            good = (names | up) & set(SORTS) or btree
            if good and nsort is not None:
                good = nsort
            if not good and names & set(UNORDERED) and not names & {"next", "for_each", "collect", "fold", "push", "extend"}:
                good = True
            rep.check(bool(good), "hash order", "%s|%s" % (b.name, last(n)), b.span, "%s uses the elements of a hash table in its own order (%s), which differs from run to run" % (b.name, n))
    rep.count("external functions named", len(ext))
    rep.count("file operations", nfile)
    rep.count("clock and random id users", nclock)
    rep.count("hash table iterations", nhash)
    rep.floor("external functions named", 60)
    rep.floor("file operations", 2)
    rep.assume.append("std, chrono, uuid, image, encoding_rs, byteorder and itertools have no effects besides those of the functions named")


def static_mut(p, rv):
    st = [rv]
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], (list, tuple)) and x[1] and x[1][0] == "static" and p.types[x[0]][0] == "ptr" and p.types[x[0]][2]:
                return True
            st.extend(x)
    return False


def hash_iters(p, b):
    """[(function, True/False/None)]: iterations of hash tables; True/False when the elements of the same chain are (not) sorted"""
    out = []
    fl = None
    for f, t in calls(p, b):
        n = f["name"]
        hit = (n.startswith(HASHED) and last(n) in ITERS)
        if not hit and last(n) in ("into_iter", "extend", "from_iter") and t[2]:
            for a in t[2]:
                if a[0] in ("c", "m"):
                    ty = b.locals[a[1][0]]
                    while ty[0] == "ref":
                        ty = ty[1]
                    if not a[1][1] and ty[0] == "adt" and ty[1] in ("std::collections::HashMap", "std::collections::HashSet"):
                        hit = last(n) != "extend" or a is not t[2][0]
        if hit:
            out.append((n, consumer(p, b, t[3][0]) if t[3] else None))
    return out


def consumer(p, b, l, depth=0):
    """does the iterator in local l go to a sort (True), to something that keeps its order (False), or cannot be told (None)"""
    if depth > 12:
        return None
    for blk in b.blocks:
        if blk is None:
            continue
        for s in blk[0]:
            rv = s[1]
            if rv[0] == "use" and rv[1][0] in ("c", "m") and rv[1][1][0] == l and not s[0][1]:
                r = consumer(p, b, s[0][0], depth + 1)
                if r is not None:
                    return r
        t = blk[1]
        if t[0] == "call" and any(a[0] in ("c", "m") and a[1][0] == l for a in t[2]):
            f = callee(p, t)
            n = last(f["name"]) if f else ""
            if n in SORTS or n in UNORDERED:
                return True
            if n in ("map", "filter", "cloned", "copied", "filter_map", "into_iter", "inspect", "chain", "flat_map") and t[3]:
                return consumer(p, b, t[3][0], depth + 1)
            if n == "collect" and t[3]:
                ty = b.locals[t[3][0]]
                if ty[0] == "adt" and ("BTree" in ty[1] or "Hash" in ty[1]):
                    return True
                return None
            if n in ("next", "for_each", "enumerate", "fold", "zip"):
                return False
    for blk in b.blocks:
        if blk is None:
            continue
        for s in blk[0]:
            if s[1][0] == "ref" and s[1][1][0] == l:
                r = consumer(p, b, s[0][0], depth + 1)
                if r is not None:
                    return r
    return None


def source(p, sites, b, src, seen):
    """[("bad"|"und", reason)] for a path that is not (only) a parameter of a public function"""
    out = []
    for s in src:
        if s[0] == "param":
            if (b.key, s[1]) in seen:
                continue
            seen.add((b.key, s[1]))
            if b.vis == "pub" and b.isfn and not sites.get(b.key):
                continue
            if not b.isfn:
                out.append(("und", "captured by a closure"))
                continue
            for c, t in sites.get(b.key, ()):
                if s[1] - 1 >= len(t[2]):
                    continue
                out += source(p, sites, c, Flow(p, c).op(t[2][s[1] - 1]), seen)
        elif s[0] == "const":
            out.append(("bad", "a constant in %s" % b.name))
        elif s[0] == "call":
            n = s[1]
            k = [x for x in p.bodies.values() if x.name == n]
            out.append(("bad" if not k else "und", "the result of %s in %s" % (n, b.name)))
        else:
            out.append(("und", "%s in %s" % (s[1], b.name)))
    return out


def reach_cut(p, roots, cut):
    seen, stack = set(), list(roots)
    while stack:
        k = stack.pop()
        if k in seen or k not in p.bodies or cut(p.bodies[k]):
            continue
        seen.add(k)
        stack += callees(p, p.bodies[k])
    return seen


def path_to(p, k, cut):
    prev, stack = {}, []
    for b in p.bodies.values():
        if b.isfn and b.vis == "pub" and not cut(b):
            prev[b.key] = None
            stack.append(b.key)
    while stack:
        x = stack.pop(0)
        if x == k:
            out = []
            while x:
                out.append(p.bodies[x].name)
                x = prev[x]
            return " <- ".join(out[:6])
        for c in callees(p, p.bodies[x]):
            if c not in prev and c in p.bodies and not cut(p.bodies[c]):
                prev[c] = x
                stack.append(c)
    return "?"
