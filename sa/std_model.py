"""Models of the standard library (values are contents; Vec, String, Box and Arc are transparent)."""
from terms import *
from engine import GiveUp, std_opaque

M = {}


def m(*names):
    def d(fn):
        for n in names:
            M[n] = fn
        return fn
    return d


def one(st, v):
    return [(st, v)]


# ------------------------------------------------------------------ helpers
def some(eng, ty, v):
    return mk("agg", ty, 1, v)


def none(ty):
    return mk("agg", ty, 0)


def ok(ty, v):
    return mk("agg", ty, 0, v)


def err(ty, v):
    return mk("agg", ty, 1, v)


UNIT = None


def unit(eng):
    global UNIT
    if UNIT is None:
        for i, t in enumerate(eng.p.T):
            if t["k"] == "tuple" and not t["f"]:
                UNIT = mk("agg", i, 0)
                break
        else:
            UNIT = UNINIT
    return UNIT


def mref(eng, st, v):
    """innermost mutable reference behind v (through &mut &mut ..), or v"""
    n = 8
    while n:
        n -= 1
        if v.op == "vref" and v.a[0].op in ("ref", "slm", "vref"):
            v = v.a[0]
            continue
        if v.op == "ref":
            w = eng.load(st, v)
            if w.op in ("ref", "slm"):
                v = w
                continue
        return v
    return v


def cont(eng, st, v):
    return eng.load_all(st, v)


def set_content(eng, st, v, c):
    eng.store(st, mref(eng, st, v), c)


def fork_bool(eng, fr, st, t):
    """[(state, 0/1)] for an undecided condition"""
    v = eng.lookup(st, t)
    if v is not None:
        return [(st, v)]
    r = []
    for val in (1, 0):
        s = st.copy()
        if eng.assume(s, t, val, fr):
            r.append((s, val))
    return r


def elem_ty(eng, ty):
    T = eng.p.T[ty]
    if T["k"] in ("ref", "ptr"):
        T = eng.p.T[T["e"]]
    if T["k"] in ("slice", "array"):
        return T["e"]
    if T["k"] == "adt" and T["args"]:
        return T["args"][0]
    return None


def deref_ty(eng, ty):
    T = eng.p.T[ty]
    while T["k"] in ("ref", "ptr"):
        ty = T["e"]
        T = eng.p.T[ty]
    return ty


# ------------------------------------------------------------------ Vec / String
@m("Vec::new", "Vec::with_capacity", "String::new", "String::with_capacity", "Default::default@Vec",
   "Default::default@String")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, EMPTY)


@m("Vec::push")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    c = eng.load(st, r)
    eng.store(st, r, concat(c, seq_of([vals[1]])))
    return one(st, unit(eng))


@m("Vec::insert")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    c = eng.load(st, r)
    i = vals[1]
    eng.store(st, r, concat(subseq(c, I(0), i), seq_of([vals[2]]), subseq(c, i, length(c))))
    return one(st, unit(eng))


@m("Vec::remove", "Vec::swap_remove")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    c = eng.load(st, r)
    i = vals[1]
    L = length(c)
    x = elem(c, i)
    if f["d"].endswith("swap_remove"):
        eng.store(st, r, subseq(update(c, i, elem(c, sub(L, I(1)))), I(0), sub(L, I(1))))
    else:
        eng.store(st, r, concat(subseq(c, I(0), i), subseq(c, add(i, I(1)), L)))
    return one(st, x)


@m("Vec::pop")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    out = []
    for s, nonempty in fork_bool(eng, fr, st, eng.lt(st, I(0), length(eng.load(st, r)), False)):
        if not nonempty:
            out.append((s, none(rty)))
            continue
        c = eng.load(s, r)
        L = sub(length(c), I(1))
        x = elem(c, L)
        eng.store(s, r, subseq(c, I(0), L))
        out.append((s, some(eng, rty, x)))
    if len(out) > 1:
        eng.mark_iter()
    return out


@m("Vec::clear", "String::clear")
def _(eng, fr, b, st, f, vals, rty, atys):
    set_content(eng, st, vals[0], EMPTY)
    return one(st, unit(eng))


@m("Vec::reserve", "Vec::shrink_to_fit", "Vec::reserve_exact", "String::reserve")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, unit(eng))


@m("Vec::append")
def _(eng, fr, b, st, f, vals, rty, atys):
    r, q = mref(eng, st, vals[0]), mref(eng, st, vals[1])
    c, d = eng.load(st, r), eng.load(st, q)
    eng.store(st, q, EMPTY)
    eng.store(st, r, concat(c, d))
    return one(st, unit(eng))


@m("Vec::extend_from_slice", "String::push_str", "AddAssign::add_assign@String")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    eng.store(st, r, concat(eng.load(st, r), cont(eng, st, vals[1])))
    return one(st, unit(eng))


@m("String::push")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    x = vals[1]
    if x.op == "i" and x.a[0] < 128:
        x = seq_of([x])
    else:
        x = mk("app", "utf8", x)
    eng.store(st, r, concat(eng.load(st, r), x))
    return one(st, unit(eng))


@m("Vec::truncate", "String::truncate")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    out = []
    n = vals[1]
    for s, cut in fork_bool(eng, fr, st, eng.lt(st, n, length(eng.load(st, r)), False)):
        if cut:
            eng.store(s, r, subseq(eng.load(s, r), I(0), n))
        out.append((s, unit(eng)))
    return out


@m("Vec::resize")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    n, x = vals[1], vals[2]
    out = []
    for s, cut in fork_bool(eng, fr, st, eng.lt(st, n, length(eng.load(st, r)), False)):
        c = eng.load(s, r)
        if cut:
            eng.store(s, r, subseq(c, I(0), n))
        else:
            k = sub(n, length(c))
            if k.op == "i" and 0 <= k.a[0] <= 512:
                eng.store(s, r, concat(c, seq_of([x] * k.a[0])))
            else:
                eng.store(s, r, concat(c, set_len(mk("rep", x, k), k)))
        out.append((s, unit(eng)))
    return out


@m("Vec::split_off")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    c = eng.load(st, r)
    n = vals[1]
    eng.store(st, r, subseq(c, I(0), n))
    return one(st, subseq(c, n, length(c)))


@m("Vec::drain")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    c = eng.load(st, r)
    lo, hi = bounds(eng, st, vals[1], atys[1], c)
    if lo is None:
        return None
    eng.store(st, r, concat(subseq(c, I(0), lo), subseq(c, hi, length(c))))
    d = subseq(c, lo, hi)
    return one(st, mk("vit", d, I(0), length(d)))


@m("vec::from_elem")
def _(eng, fr, b, st, f, vals, rty, atys):
    x, n = vals
    if n.op == "i" and n.a[0] <= 512:
        return one(st, seq_of([x] * n.a[0]))
    return one(st, set_len(mk("rep", x, n), n))


@m("boxed::box_assume_init_into_vec_unsafe", "Box::new", "Arc::new", "Rc::new", "Box::pin", "[T]::into_vec",
   "Vec::into_boxed_slice", "String::into_bytes", "Box::assume_init", "Box::write", "hint::must_use", "hint::black_box",
   "Box::into_inner", "String::into_boxed_str")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, vals[-1])


@m("Box::new_uninit", "boxed::box_new_uninit", "MaybeUninit::uninit")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, UNINIT)


@m("MaybeUninit::assume_init", "ManuallyDrop::new", "MaybeUninit::new", "ManuallyDrop::into_inner")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, vals[0])


# identity on references: &Vec -> &[T] etc.
@m("Deref::deref@Vec", "Deref::deref@String", "Deref::deref@Arc", "Deref::deref@Box", "AsRef::as_ref@Box", "AsRef::as_ref@Vec",
   "Vec::as_slice", "String::as_str", "str::as_bytes", "String::as_bytes", "AsRef::as_ref@[T]", "AsRef::as_ref@str",
   "Borrow::borrow@Vec", "Borrow::borrow@String", "Borrow::borrow@Box", "AsRef::as_ref@String", "Deref::deref@ManuallyDrop",
   "AsRef::as_ref@Arc", "[T; N]::as_slice", "AsRef::as_ref@[T; N]", "Borrow::borrow@[T; N]", "str::trim_matches_identity",
   "Deref::deref@Rc", "Cow::deref")
def _(eng, fr, b, st, f, vals, rty, atys):
    v = mref(eng, st, vals[0])
    if v.op in ("ref", "slm"):
        return one(st, mk("vref", eng.load(st, v)))
    return one(st, v)


@m("DerefMut::deref_mut@Vec", "Vec::as_mut_slice", "AsMut::as_mut@Vec", "[T; N]::as_mut_slice", "AsMut::as_mut@[T; N]",
   "AsMut::as_mut@[T]", "BorrowMut::borrow_mut@Vec")
def _(eng, fr, b, st, f, vals, rty, atys):
    v = mref(eng, st, vals[0])
    if v.op == "ref":
        return one(st, mk("slm", I(0), length(eng.load(st, v)), *v.a))
    return one(st, v)


@m("DerefMut::deref_mut@Box", "AsMut::as_mut@Box")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, mref(eng, st, vals[0]))


# copies
@m("Clone::clone@Vec", "Clone::clone@String", "Clone::clone@Box", "Clone::clone@Arc", "Clone::clone@Rc", "[T]::to_vec",
   "ToOwned::to_owned@[T]", "ToOwned::to_owned@str", "ToVec::to_vec", "Clone::clone@IBig", "Clone::clone@UBig",
   "str::to_owned", "String::from", "From::from@String", "From::from@Vec", "From::from@Box", "From::from@Arc",
   "ToString::to_string@str", "ToString::to_string@String", "SpecToString::spec_to_string@str",
   "SpecToString::spec_to_string@String", "Clone::clone@[T; N]", "Into::into@Vec", "str::into_string", "Clone::clone@PathBuf",
   "Clone::clone@slice::Iter", "Clone::clone@vec::IntoIter", "Clone::clone@Range", "Clone::clone@RangeInclusive", "[T]::to_vec_in",
   "ConvertVec::to_vec@T", "u8::to_owned", "SpecArrayClone::clone@T")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, cont(eng, st, vals[0]))


@m("ToString::to_string@T")
def _(eng, fr, b, st, f, vals, rty, atys):
    t = eng.p.T[deref_ty(eng, atys[0])]
    if t["k"] == "str" or t.get("d") == "std::string::String":
        return one(st, cont(eng, st, vals[0]))
    return one(st, eng.opaque(fr, st, "to_string", vals, atys))


@m("Vec::len", "[T]::len", "str::len", "String::len")
def _(eng, fr, b, st, f, vals, rty, atys):
    v = mref(eng, st, vals[0])
    if v.op == "slm":
        return one(st, sub(v.a[1], v.a[0]))
    return one(st, length(cont(eng, st, v)))


@m("Vec::is_empty", "[T]::is_empty", "str::is_empty", "String::is_empty")
def _(eng, fr, b, st, f, vals, rty, atys):
    v = mref(eng, st, vals[0])
    l = sub(v.a[1], v.a[0]) if v.op == "slm" else length(cont(eng, st, v))
    return one(st, eng.eq(st, l, I(0)))


# ------------------------------------------------------------------ indexing
def bounds(eng, st, iv, ity, c, L=None):
    """range value -> (lo, hi)"""
    if L is None:
        L = length(c)
    iv = cont(eng, st, iv)
    n = eng.p.T[ity].get("d", "") or ""
    n = n.split("::")[-1]
    if iv.op != "agg":
        return None, None
    a = iv.a[2:]
    if n == "Range":
        return a[0], a[1]
    if n == "RangeFrom":
        return a[0], L
    if n == "RangeTo":
        return I(0), a[0]
    if n == "RangeFull":
        return I(0), L
    if n == "RangeInclusive":
        return a[0], add(a[1], I(1))
    if n == "RangeToInclusive":
        return I(0), add(a[0], I(1))
    return None, None


def do_index(eng, st, base, iv, ity, mut):
    """reference to base[iv]"""
    k = eng.p.T[ity]["k"]
    base = mref(eng, st, base)
    if base.op == "ref":
        base = mk("slm", I(0), length(eng.load(st, base)), *base.a)
    if base.op == "slm":
        if k == "int":
            i = add(base.a[0], iv)
            if not mut:
                return mk("vref", elem(eng.root_read(st, base.a[2], base.a[3:]), i))
            return mk("ref", *base.a[2:], mk("px", i))
        L = sub(base.a[1], base.a[0])
        lo, hi = bounds(eng, st, iv, ity, None, L)
        if lo is None:
            return None
        r = mk("slm", add(base.a[0], lo), add(base.a[0], hi), *base.a[2:])
        return r if mut else mk("vref", eng.load(st, r))
    c = eng.load(st, base)
    if k == "int":
        return mk("vref", elem(c, iv))
    lo, hi = bounds(eng, st, iv, ity, c)
    if lo is None:
        return None
    return mk("vref", subseq(c, lo, hi))


@m("Index::index@Vec", "Index::index@[T]", "Index::index@[T; N]", "Index::index@str", "Index::index@String",
   "SliceIndex::index@usize", "SliceIndex::index@Range")
def _(eng, fr, b, st, f, vals, rty, atys):
    if "SliceIndex" in f["d"]:
        vals, atys = [vals[1], vals[0]], [atys[1], atys[0]]
    r = do_index(eng, st, vals[0], vals[1], atys[1], False)
    return None if r is None else one(st, r)


@m("IndexMut::index_mut@Vec", "IndexMut::index_mut@[T]", "IndexMut::index_mut@[T; N]")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = do_index(eng, st, vals[0], vals[1], atys[1], True)
    return None if r is None else one(st, r)


def get_like(mut):
    def h(eng, fr, b, st, f, vals, rty, atys):
        base = mref(eng, st, vals[0])
        L = sub(base.a[1], base.a[0]) if base.op == "slm" else length(cont(eng, st, base))
        if eng.p.T[atys[1]]["k"] == "int":
            cond = eng.lt(st, vals[1], L, False)
            conds = [cond]
        else:
            lo, hi = bounds(eng, st, vals[1], atys[1], None, L)
            if lo is None:
                return None
            conds = [eng.bnot(eng.lt(st, hi, lo, False), None), eng.bnot(eng.lt(st, L, hi, False), None)]
        sts = [(st, 1)]
        out = []
        for c in conds:
            nx = []
            for s, v in sts:
                for s2, v2 in fork_bool(eng, fr, s, c):
                    if v2:
                        nx.append((s2, 1))
                    else:
                        out.append((s2, none(rty)))
            sts = nx
        for s, _ in sts:
            r = do_index(eng, s, vals[0], vals[1], atys[1], mut)
            out.append((s, some(eng, rty, r)))
        return out
    return h


M["[T]::get"] = get_like(False)
M["[T]::get_mut"] = get_like(True)
M["str::get"] = get_like(False)


def ends(last, mut):
    def h(eng, fr, b, st, f, vals, rty, atys):
        base = mref(eng, st, vals[0])
        L = sub(base.a[1], base.a[0]) if base.op == "slm" else length(cont(eng, st, base))
        usz = next(i for i, t in enumerate(eng.p.T) if t["k"] == "int" and t.get("b") == 64 and not t.get("s"))
        out = []
        for s, v in fork_bool(eng, fr, st, eng.lt(st, I(0), L, False)):
            if v:
                i = sub(L, I(1)) if last else I(0)
                out.append((s, some(eng, rty, do_index(eng, s, base, i, usz, mut))))
            else:
                out.append((s, none(rty)))
        return out
    return h


M["[T]::first"] = ends(False, False)
M["[T]::last"] = ends(True, False)
M["[T]::first_mut"] = ends(False, True)
M["[T]::last_mut"] = ends(True, True)


def split_at(eng, base, st, n, mut):
    base = mref(eng, st, base)
    if base.op == "ref":
        base = mk("slm", I(0), length(eng.load(st, base)), *base.a)
    if base.op == "slm":
        k = add(base.a[0], n)
        x, y = mk("slm", base.a[0], k, *base.a[2:]), mk("slm", k, base.a[1], *base.a[2:])
        if not mut:
            x, y = mk("vref", eng.load(st, x)), mk("vref", eng.load(st, y))
        return x, y
    c = eng.load(st, base)
    return mk("vref", subseq(c, I(0), n)), mk("vref", subseq(c, n, length(c)))


@m("[T]::split_at", "[T]::split_at_mut", "str::split_at")
def _(eng, fr, b, st, f, vals, rty, atys):
    x, y = split_at(eng, vals[0], st, vals[1], "mut" in f["d"].split("::")[-1])
    return one(st, mk("agg", rty, 0, x, y))


@m("[T]::split_first", "[T]::split_last")
def _(eng, fr, b, st, f, vals, rty, atys):
    base = mref(eng, st, vals[0])
    c = cont(eng, st, base)
    L = length(c)
    tup = eng.p.T[rty]["args"][0]
    out = []
    for s, v in fork_bool(eng, fr, st, eng.lt(st, I(0), L, False)):
        if not v:
            out.append((s, none(rty)))
        elif f["d"].endswith("first"):
            out.append((s, some(eng, rty, mk("agg", tup, 0, mk("vref", elem(c, I(0))), mk("vref", subseq(c, I(1), L))))))
        else:
            k = sub(L, I(1))
            out.append((s, some(eng, rty, mk("agg", tup, 0, mk("vref", elem(c, k)), mk("vref", subseq(c, I(0), k))))))
    return out


@m("[T]::copy_from_slice", "[T]::clone_from_slice", "slice::copy_from_slice_impl")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    if r.op == "ref":
        r = mk("slm", I(0), length(eng.load(st, r)), *r.a)
    eng.store(st, r, cont(eng, st, vals[1]))
    return one(st, unit(eng))


@m("[T]::fill")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    n = length(eng.load(st, r))
    x = vals[1]
    if n.op == "i" and n.a[0] <= 512:
        c = seq_of([x] * n.a[0])
    else:
        c = set_len(mk("rep", x, n), n)
    eng.store(st, r, c)
    return one(st, unit(eng))


@m("[T]::reverse")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    c = eng.load(st, r)
    k = known_elems(c)
    if k is not None:
        n = seq_of(k[::-1])
    else:
        n = set_len(mk("app", "reverse", c), length(c))
    eng.store(st, r, n)
    return one(st, unit(eng))


@m("[T]::swap")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    c = eng.load(st, r)
    x, y = elem(c, vals[1]), elem(c, vals[2])
    eng.store(st, r, update(update(c, vals[1], y), vals[2], x))
    return one(st, unit(eng))


@m("[T]::concat", "Concat::concat@[V]", "Concat::concat@[S]")
def _(eng, fr, b, st, f, vals, rty, atys):
    c = cont(eng, st, vals[0])
    k = known_elems(c)
    if k is None:
        return None
    return one(st, concat(*[cont(eng, st, x) for x in k]))


@m("mem::swap")
def _(eng, fr, b, st, f, vals, rty, atys):
    r, q = vals
    x, y = eng.load(st, r), eng.load(st, q)
    eng.store(st, r, y)
    eng.store(st, q, x)
    return one(st, unit(eng))


@m("mem::replace")
def _(eng, fr, b, st, f, vals, rty, atys):
    x = eng.load(st, vals[0])
    eng.store(st, vals[0], vals[1])
    return one(st, x)


@m("Option::take")
def _(eng, fr, b, st, f, vals, rty, atys):
    x = eng.load(st, vals[0])
    eng.store(st, vals[0], none(rty))
    return one(st, x)


@m("Option::replace", "Option::insert")
def _(eng, fr, b, st, f, vals, rty, atys):
    oty = deref_ty(eng, atys[0])
    x = eng.load(st, vals[0])
    eng.store(st, vals[0], mk("agg", oty, 1, vals[1]))
    if f["d"].endswith("insert"):
        r = vals[0]
        return one(st, mk("ref", *r.a, mk("pf", 1, 0, oty)) if r.op == "ref" else mk("vref", vals[1]))
    return one(st, x)


@m("mem::take")
def _(eng, fr, b, st, f, vals, rty, atys):
    x = eng.load(st, vals[0])
    T = eng.p.T[rty]
    d = T.get("d", "")
    if d in ("std::vec::Vec", "std::string::String"):
        v = EMPTY
    elif d == "std::option::Option":
        v = none(rty)
    elif T["k"] == "int":
        v = I(0)
    elif T["k"] == "bool":
        v = T0
    else:
        fid = eng.p.impls.get(("std::default::Default::default", rty))
        if fid is None:
            v = mk("app", "default", mk("tag", rty))
        else:
            r = eng.dispatch(fr, b, st, {"k": "item", "i": fid}, [], rty, [])
            if len(r) != 1:
                return None
            st, v = r[0]
    eng.store(st, vals[0], v)
    return one(st, x)


@m("mem::drop", "mem::forget", "ptr::drop_glue", "ptr::drop_in_place")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, unit(eng))


@m("Default::default@Arc", "Default::default@Box")
def _(eng, fr, b, st, f, vals, rty, atys):
    inner = eng.p.T[rty]["args"][0]
    fid = eng.p.impls.get(("std::default::Default::default", inner))
    if fid is None:
        return one(st, mk("app", "default", mk("tag", inner)))
    return eng.dispatch(fr, b, st, {"k": "item", "i": fid}, [], inner, [])


# ------------------------------------------------------------------ comparisons of contents
def _eqh(neg):
    def h(eng, fr, b, st, f, vals, rty, atys):
        x, y = cont(eng, st, vals[0]), cont(eng, st, vals[1])
        r = seq_eq(eng, st, x, y)
        return one(st, eng.bnot(r, rty) if neg else r)
    return h


def seq_eq(eng, st, x, y):
    return eng.eq(st, x, y)


for _n in ("Vec", "[T]", "[T; N]", "String", "str", "IBig", "UBig", "&[T]", "[U; N]"):
    M["PartialEq::eq@" + _n] = _eqh(False)
    M["PartialEq::ne@" + _n] = _eqh(True)
for _n in ("SlicePartialEq::equal@[A]", "SpecArrayEq::spec_eq@T", "SlicePartialEq::equal_same_length@A"):
    M[_n] = _eqh(False)
M["SpecArrayEq::spec_ne@T"] = _eqh(True)


@m("[T]::contains")
def _(eng, fr, b, st, f, vals, rty, atys):
    c, x = cont(eng, st, vals[0]), cont(eng, st, vals[1])
    k = known_elems(c)
    if k is not None and len(k) <= 64:
        rs = [eng.eq(st, eng.load_all(st, y), x) for y in k]
        if all(r.op == "b" for r in rs):
            return one(st, B(any(r.a[0] for r in rs)))
    return one(st, mk("app", "contains", c, x))


@m("[T]::starts_with", "str::starts_with", "[T]::ends_with", "str::ends_with")
def _(eng, fr, b, st, f, vals, rty, atys):
    c, x = cont(eng, st, vals[0]), cont(eng, st, vals[1])
    if x.op == "seq" and f["d"].endswith("starts_with"):
        l = length(x)
        if l.op == "i":
            lc = length(c)
            if lc.op == "i" and lc.a[0] < l.a[0]:
                return one(st, T0)
            if lc.op == "i":
                return one(st, eng.eq(st, subseq(c, I(0), l), x))
    return one(st, mk("app", f["d"].split("::")[-1], c, x))


# ------------------------------------------------------------------ conversions
@m("TryFrom::try_from@[T; N]", "TryFrom::try_from@&'a [T; N]", "TryFrom::try_from@&[T; N]", "TryFrom::try_from@&'a mut [T; N]")
def _(eng, fr, b, st, f, vals, rty, atys):
    R = eng.p.T[rty]
    target = R["args"][0]
    byref = eng.p.T[target]["k"] == "ref"
    n = eng.p.T[deref_ty(eng, target)]["len"]
    v = vals[0]
    c = cont(eng, st, v)
    out = []
    for s, good in fork_bool(eng, fr, st, eng.eq(st, length(c), I(n))):
        if good:
            if byref:
                out.append((s, ok(rty, v)))
            else:
                set_len(c, I(n))
                out.append((s, ok(rty, c)))
        else:
            out.append((s, err(rty, v)))
    return out


@m("TryFrom::try_from@u8", "TryFrom::try_from@u16", "TryFrom::try_from@u32", "TryFrom::try_from@u64", "TryFrom::try_from@usize",
   "TryFrom::try_from@i32", "TryFrom::try_from@i64", "TryFrom::try_from@u128")
def _(eng, fr, b, st, f, vals, rty, atys):
    bits, sg = eng.p.int_info(eng.p.T[rty]["args"][0])
    fb, fs = eng.p.int_info(atys[0])
    x = vals[0]
    if not sg and not fs:
        if fb <= bits:
            return one(st, ok(rty, x))
        out = []
        for s, good in fork_bool(eng, fr, st, eng.lt(st, x, I(1 << bits), False)):
            out.append((s, ok(rty, x) if good else err(rty, mk("app", "TryFromIntError"))))
        return out
    if x.op == "i":
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
        return one(st, ok(rty, x) if lo <= x.a[0] <= hi else err(rty, mk("app", "TryFromIntError")))
    return None


@m("From::from@u16", "From::from@u32", "From::from@u64", "From::from@usize", "From::from@u128", "From::from@i32", "From::from@i64")
def _(eng, fr, b, st, f, vals, rty, atys):
    v = vals[0]
    return one(st, I(v.a[0]) if v.op == "b" else v)


def _to_be(n_bits):
    def h(eng, fr, b, st, f, vals, rty, atys):
        name = f["d"].split("::")[-1]
        x = vals[0]
        bs = []
        for i in range(n_bits // 8):
            sh = x if i == 0 else (I(x.a[0] >> (8 * i)) if x.op == "i" else mk("bin", "Shr", x, I(8 * i)))
            bs.append(I(sh.a[0] & 255) if sh.op == "i" else (sh if n_bits == 8 else mk("trunc", 8, sh)))
        if name == "to_be_bytes":
            bs = bs[::-1]
        return one(st, seq_of(bs))
    return h


def _from_be(n_bits):
    def h(eng, fr, b, st, f, vals, rty, atys):
        name = f["d"].split("::")[-1]
        c = cont(eng, st, vals[0])
        bs = [elem(c, I(i)) for i in range(n_bits // 8)]
        if name == "from_le_bytes":
            bs = bs[::-1]
        if all(x.op == "i" for x in bs):
            return one(st, I(int.from_bytes(bytes(x.a[0] for x in bs), "big")))
        t = None
        for i, x in enumerate(bs):
            s = 8 * (len(bs) - 1 - i)
            y = x if s == 0 else eng.binop(st, "Shl", x, I(s), None)
            t = y if t is None else eng.binop(st, "BitOr", t, y, None)
        return one(st, t)
    return h


for _w in (8, 16, 32, 64, 128):
    for _n in ("to_be_bytes", "to_le_bytes"):
        M["u%d::%s" % (_w, _n)] = _to_be(_w)
    for _n in ("from_be_bytes", "from_le_bytes"):
        M["u%d::%s" % (_w, _n)] = _from_be(_w)
M["usize::to_be_bytes"] = M["usize::to_le_bytes"] = _to_be(64)


# ------------------------------------------------------------------ iterators
@m("[T]::iter", "IntoIterator::into_iter@&'a [T]", "IntoIterator::into_iter@&'a Vec", "IntoIterator::into_iter@&'a [T; N]",
   "IntoIterator::into_iter@&'a std::vec::Vec", "Vec::iter", "IntoIterator::into_iter@&[T]")
def _(eng, fr, b, st, f, vals, rty, atys):
    c = cont(eng, st, vals[0])
    return one(st, mk("sit", c, I(0), length(c)))


@m("[T]::iter_mut", "IntoIterator::into_iter@&'a mut [T]", "IntoIterator::into_iter@&'a mut std::vec::Vec",
   "IntoIterator::into_iter@&'a mut [T; N]", "IntoIterator::into_iter@&'a mut Vec")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    if r.op == "ref":
        r = mk("slm", I(0), length(eng.load(st, r)), *r.a)
    if r.op == "slm":
        return one(st, mk("sitm", *r.a))
    c = cont(eng, st, r)
    return one(st, mk("sit", c, I(0), length(c)))


@m("IntoIterator::into_iter@Vec", "IntoIterator::into_iter@[T; N]", "IntoIterator::into_iter@String")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, mk("vit", vals[0], I(0), length(vals[0])))


@m("str::chars", "str::bytes", "str::split", "str::lines", "str::char_indices", "str::split_whitespace", "HashMap::iter", "str::splitn",
   "env::vars")
def _(eng, fr, b, st, f, vals, rty, atys):
    name = f["d"].split("::")[-1]
    if name == "bytes":
        c = cont(eng, st, vals[0])
    else:
        c = mk("app", name, *[eng.deep(st, v) for v in vals])
        k = const_bytes(cont(eng, st, vals[0])) if vals else None
        if name == "chars" and k is not None and all(x < 128 for x in k):
            c = cont(eng, st, vals[0])
    return one(st, mk("vit", c, I(0), length(c)))


@m("[T]::chunks", "[T]::chunks_exact", "[T]::windows")
def _(eng, fr, b, st, f, vals, rty, atys):
    c = cont(eng, st, vals[0])
    L, n = length(c), vals[1]
    name = f["d"].split("::")[-1]
    if L.op == "i" and n.op == "i" and n.a[0] > 0 and name != "windows":
        k, r = divmod(L.a[0], n.a[0])
        parts = [subseq(c, I(i * n.a[0]), I((i + 1) * n.a[0])) for i in range(k)]
        if r and name == "chunks":
            parts.append(subseq(c, I(k * n.a[0]), L))
        cc = seq_of([mk("vref", x) for x in parts])
    else:
        cc = mk("app", name, c, n)
    return one(st, mk("vit", cc, I(0), length(cc)))


def it_next(back):
    def h(eng, fr, b, st, f, vals, rty, atys):
        r = mref(eng, st, vals[0])
        it = eng.load(st, r)
        if it.op not in ("sit", "vit", "sitm"):
            eng.mark_iter()
            return [(st, eng.opaque(fr, st, "next:" + f["d"], vals, atys))]
        if it.op == "sitm":
            lo, hi = it.a[0], it.a[1]
        else:
            lo, hi = it.a[1], it.a[2]
        fk = fork_bool(eng, fr, st, eng.lt(st, lo, hi, False))
        if len(fk) > 1:
            eng.mark_iter()
        out = []
        for s, more in fk:
            if not more:
                out.append((s, none(rty)))
                continue
            # assume() may have rewritten nothing: reload
            pos = sub(hi, I(1)) if back else lo
            nlo, nhi = (lo, pos) if back else (add(lo, I(1)), hi)
            if it.op == "sitm":
                x = mk("ref", *it.a[2:], mk("px", pos))
                eng.store(s, r, mk("sitm", nlo, nhi, *it.a[2:]))
            else:
                x = elem(it.a[0], pos)
                if it.op == "sit":
                    x = mk("vref", x)
                eng.store(s, r, mk(it.op, it.a[0], nlo, nhi))
            out.append((s, some(eng, rty, x)))
        return out
    return h


for _n in ("slice::Iter", "slice::IterMut", "vec::IntoIter", "array::IntoIter", "str::Chars", "str::Split", "str::Bytes", "vec::Drain",
           "Chunks", "ChunksExact", "Windows", "Vars", "Lines", "Drain", "IntoIter"):
    M["Iterator::next@" + _n] = it_next(False)
    M["DoubleEndedIterator::next_back@" + _n] = it_next(True)


@m("ExactSizeIterator::len@slice::Iter", "ExactSizeIterator::len@vec::IntoIter", "ExactSizeIterator::len@slice::IterMut")
def _(eng, fr, b, st, f, vals, rty, atys):
    it = cont(eng, st, vals[0])
    if it.op == "sitm":
        return one(st, sub(it.a[1], it.a[0]))
    if it.op in ("sit", "vit"):
        return one(st, sub(it.a[2], it.a[1]))
    return None


@m("slice::Iter::as_slice", "IntoIter::as_slice", "Iter::as_slice")
def _(eng, fr, b, st, f, vals, rty, atys):
    it = cont(eng, st, vals[0])
    if it.op in ("sit", "vit"):
        return one(st, mk("vref", subseq(it.a[0], it.a[1], it.a[2])))
    return None


def range_next(back):
    def h(eng, fr, b, st, f, vals, rty, atys):
        r = mref(eng, st, vals[0])
        it = eng.load(st, r)
        if it.op != "agg":
            eng.mark_iter()
            return None
        ety = eng.p.T[rty]["args"][0]
        if eng.p.T[ety]["k"] != "int":
            return None
        sg = eng.p.int_info(ety)[1]
        lo, hi = it.a[2], it.a[3]
        inc = len(it.a) > 4
        if inc:
            ex = it.a[4]
            cond = eng.bnot(eng.lt(st, hi, lo, sg), None)
            fk0 = fork_bool(eng, fr, st, ex)
            fk = []
            for s, e in fk0:
                if e:
                    fk.append((s, 0))
                else:
                    fk += fork_bool(eng, fr, s, cond)
        else:
            fk = fork_bool(eng, fr, st, eng.lt(st, lo, hi, sg))
        if len(fk) > 1:
            eng.mark_iter()
        out = []
        for s, more in fk:
            if not more:
                out.append((s, none(rty)))
                continue
            if inc:
                for s2, last in fork_bool(eng, fr, s, eng.eq(s, lo, hi)):
                    if last:
                        eng.store(s2, r, mk("agg", it.a[0], 0, lo, hi, T1))
                        out.append((s2, some(eng, rty, lo)))
                    elif back:
                        eng.store(s2, r, mk("agg", it.a[0], 0, lo, sub(hi, I(1)), T0))
                        out.append((s2, some(eng, rty, hi)))
                    else:
                        eng.store(s2, r, mk("agg", it.a[0], 0, add(lo, I(1)), hi, T0))
                        out.append((s2, some(eng, rty, lo)))
                continue
            if back:
                x = sub(hi, I(1))
                eng.store(s, r, mk("agg", it.a[0], 0, lo, x))
            else:
                x = lo
                eng.store(s, r, mk("agg", it.a[0], 0, add(lo, I(1)), hi))
            out.append((s, some(eng, rty, x)))
        return out
    return h


for _n in ("Range", "RangeInclusive"):
    M["Iterator::next@" + _n] = range_next(False)
    M["DoubleEndedIterator::next_back@" + _n] = range_next(True)
M["Iterator::next@RangeFrom"] = None


def pair_ty(eng):
    """some two-element tuple type"""
    r = getattr(eng.p, "_pair", None)
    if r is None:
        r = eng.p._pair = next((i for i, t in enumerate(eng.p.T) if t["k"] == "tuple" and len(t["f"]) == 2), 0)
    return r


def items(eng, fr, b, st, it, n=0):
    """elements an iterator value will yield when that is finite and known: (state, [terms]) or None"""
    it0 = it
    if it.op in ("ref", "vref", "slm"):
        c = eng.load_all(st, it)
        if c.op in ("sit", "vit", "sitm") or (c.op == "agg" and eng.p.T[c.a[0]].get("d", "").startswith(("std::iter", "std::ops::Range"))):
            return None
        k = known_elems(c)
        return None if k is None else (st, [mk("vref", x) for x in k])
    if it.op in ("sit", "vit"):
        c, lo, hi = it.a
        if lo.op != "i" or hi.op != "i" or hi.a[0] - lo.a[0] > 600:
            return None
        r = [elem(c, I(i)) for i in range(lo.a[0], hi.a[0])]
        return st, ([mk("vref", x) for x in r] if it.op == "sit" else r)
    if it.op == "sitm":
        lo, hi = it.a[0], it.a[1]
        if lo.op != "i" or hi.op != "i" or hi.a[0] - lo.a[0] > 600:
            return None
        return st, [mk("ref", *it.a[2:], mk("px", I(i))) for i in range(lo.a[0], hi.a[0])]
    if it.op == "agg":
        d = eng.p.T[it.a[0]].get("d", "") or ""
        n_ = d.split("::")[-1]
        a = it.a[2:]
        if n_ == "Range" and a[0].op == "i" and a[1].op == "i" and a[1].a[0] - a[0].a[0] < 600:
            return st, [I(x) for x in range(a[0].a[0], a[1].a[0])]
        if n_ == "RangeInclusive" and a[0].op == "i" and a[1].op == "i" and a[1].a[0] - a[0].a[0] < 600:
            return st, [I(x) for x in range(a[0].a[0], a[1].a[0] + 1)]
        names = [x[0] for x in eng.p.T[it.a[0]]["v"][0]["f"]] if eng.p.T[it.a[0]]["k"] == "adt" else []
        fl = dict(zip(names, a))
        if n_ in ("Cloned", "Copied", "Rev", "Enumerate", "Map", "Zip", "Take", "Skip", "Chain", "Fuse", "ByRefSized"):
            inner = fl.get("it", fl.get("iter", fl.get("a")))
            if inner is None:
                return None
            if n_ == "Chain":
                return None
            r = items(eng, fr, b, st, inner)
            if r is None:
                return None
            st, xs = r
            if n_ == "Zip":
                r2 = items(eng, fr, b, st, fl["b"]) if "b" in fl else None
                if r2 is None or fl.get("index", I(0)) not in (I(0), UNINIT):
                    return None
                st, ys = r2
                return st, [mk("agg", pair_ty(eng), 0, x, y) for x, y in zip(xs, ys)]
            if n_ == "Enumerate":
                c0 = fl.get("count", I(0))
                if c0.op != "i":
                    return None
                return st, [mk("agg", pair_ty(eng), 0, I(c0.a[0] + i), x) for i, x in enumerate(xs)]
            if n_ in ("Cloned", "Copied"):
                return st, [eng.load_all(st, x) for x in xs]
            if n_ == "Rev":
                return st, xs[::-1]
            if n_ == "Take" and fl["n"].op == "i":
                return st, xs[:fl["n"].a[0]]
            if n_ == "Skip" and fl["n"].op == "i":
                return st, xs[fl["n"].a[0]:]
            if n_ == "Fuse":
                return None
            if n_ == "Map":
                ys = []
                for x in xs:
                    rr = eng.call_value(fr, b, st, fl["f"], [x], None, [])
                    if len(rr) != 1:
                        return None
                    st, y = rr[0]
                    ys.append(y)
                return st, ys
            return None
    k = None
    if it.op == "seq":
        k = known_elems(it)
    return None if k is None else (st, k)


def as_content(eng, st, it):
    """content an iterator yields in order, when it just walks over some content by value/copy"""
    if it.op in ("sit", "vit"):
        return subseq(it.a[0], it.a[1], it.a[2])
    if it.op == "sitm":
        return eng.load(st, mk("slm", *it.a))
    if it.op in ("ref", "vref", "slm"):
        c = eng.load_all(st, it)
        if c.op in ("sit", "vit", "sitm"):
            return None
        return c
    if it.op == "agg":
        d = eng.p.T[it.a[0]].get("d", "") or ""
        if d.split("::")[-1] in ("Cloned", "Copied"):
            return as_content(eng, st, it.a[2])
        if d.split("::")[-1] == "Take":
            c = as_content(eng, st, it.a[2])
            n = it.a[3]
            if c is not None:
                L = length(c)
                if L.op == "i" and n.op == "i":
                    return subseq(c, I(0), I(min(L.a[0], n.a[0])))
            return None
        if d.split("::")[-1] == "Rev":
            c = as_content(eng, st, it.a[2])
            if c is None:
                return None
            k = known_elems(c)
            return seq_of(k[::-1]) if k is not None else set_len(mk("app", "reverse", c), length(c))
        if d.split("::")[-1] == "Chain":
            x, y = it.a[2], it.a[3]
            if x.op == "agg" and y.op == "agg" and x.a[1] == 1 and y.a[1] == 1:
                x, y = as_content(eng, st, x.a[2]), as_content(eng, st, y.a[2])
                if x is not None and y is not None:
                    return concat(x, y)
            return None
        return None
    return it


@m("Extend::extend@Vec", "SpecExtend::spec_extend@Vec", "Extend::extend@String")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    x = vals[1]
    c = as_content(eng, st, x)
    if c is None:
        q = items(eng, fr, b, st, x)
        if q is None:
            c = mk("app", "collect", eng.deep(st, x))
        else:
            st, xs = q
            c = seq_of(xs)
    eng.store(st, r, concat(eng.load(st, r), c))
    return one(st, unit(eng))


@m("Iterator::collect", "FromIterator::from_iter@Vec", "FromIterator::from_iter@String")
def _(eng, fr, b, st, f, vals, rty, atys):
    d = eng.p.T[rty].get("d", "")
    if d not in ("std::vec::Vec", "std::string::String"):
        if f["d"] == "std::iter::Iterator::collect":
            q = items(eng, fr, b, st, vals[0])
            return [(st, eng.opaque(fr, st, "collect:" + d, vals, atys))]
        return None
    c = as_content(eng, st, vals[0]) if d == "std::vec::Vec" else None
    if c is not None:
        return one(st, c)
    q = items(eng, fr, b, st, vals[0])
    if q is None:
        return one(st, eng.opaque(fr, st, "collect", vals, atys))
    st, xs = q
    if d == "std::string::String":
        if all(x.op == "i" and x.a[0] < 128 for x in xs):
            return one(st, seq_of(xs))
        return one(st, mk("app", "collect_string", *xs))
    return one(st, seq_of(xs))


@m("Iterator::for_each", "Iterator::for_each@slice::Iter")
def _(eng, fr, b, st, f, vals, rty, atys):
    q = items(eng, fr, b, st, vals[0])
    if q is None:
        return None
    st, xs = q
    sts = [st]
    for x in xs:
        nx = []
        for s in sts:
            nx += [s2 for s2, _ in eng.call_value(fr, b, s, vals[1], [x], None, [])]
        sts = nx
    return [(s, unit(eng)) for s in sts]


def _fold(eng, fr, b, st, f, vals, rty, atys):
    q = items(eng, fr, b, st, vals[0])
    if q is None:
        return None
    st, xs = q
    sts = [(st, vals[1])]
    for x in xs:
        nx = []
        for s, acc in sts:
            nx += eng.call_value(fr, b, s, vals[2], [acc, x], None, [])
        sts = nx
    return sts


for _n in ("Iterator::fold", "Iterator::fold@slice::Iter", "Iterator::fold@Map", "Iterator::fold@Range", "Iterator::fold@Cloned",
           "Iterator::fold@vec::IntoIter", "Iterator::fold@array::IntoIter", "Iterator::fold@Zip", "Iterator::fold@Enumerate", "ZipImpl::fold@Zip", "Iterator::fold@Rev", "Iterator::fold@Take", "Iterator::fold@Skip"):
    M[_n] = _fold


def _anyall(which):
    def h(eng, fr, b, st, f, vals, rty, atys):
        it = cont(eng, st, vals[0])
        q = items(eng, fr, b, st, it)
        if q is None:
            return [(st, eng.opaque(fr, st, "any:" + which, vals, atys))]
        st, xs = q
        out = []
        sts = [st]
        for i, x in enumerate(xs):
            nx = []
            for s in sts:
                a = x if which in ("any", "all", "position") else mk("vref", x)
                for s2, r in eng.call_value(fr, b, s, vals[1], [a], None, []):
                    for s3, v in fork_bool(eng, fr, s2, r):
                        if which == "all":
                            if v:
                                nx.append(s3)
                            else:
                                out.append((s3, T0))
                        elif v:
                            out.append((s3, T1 if which == "any" else some(eng, rty, I(i) if which == "position" else x)))
                        else:
                            nx.append(s3)
            sts = nx
        for s in sts:
            out.append((s, {"any": T0, "all": T1}.get(which) or none(rty)))
        return out
    return h


for _w in ("any", "all", "position", "find"):
    M["Iterator::" + _w] = _anyall(_w)
    M["Iterator::%s@slice::Iter" % _w] = _anyall(_w)


@m("Iterator::copied", "Iterator::cloned")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, mk("agg", rty, 0, vals[0]))


@m("Iterator::eq")
def _(eng, fr, b, st, f, vals, rty, atys):
    x, y = as_content(eng, st, vals[0]), as_content(eng, st, vals[1])
    if x is None or y is None:
        return None
    return one(st, eng.eq(st, x, y))


@m("Iterator::next@Zip")
def _(eng, fr, b, st, f, vals, rty, atys):
    """both sides are walked in step"""
    r = mref(eng, st, vals[0])
    it = eng.load(st, r)
    if it.op != "agg":
        eng.mark_iter()
        return [(st, eng.opaque(fr, st, "next:zip", vals, atys))]
    names = [x[0] for x in eng.p.T[it.a[0]]["v"][0]["f"]]
    ia, ib = names.index("a"), names.index("b")
    tup = eng.p.T[rty]["args"][0]
    sides = []
    for k in (ia, ib):
        x = it.a[2 + k]
        w = x
        wrap = None
        if x.op == "agg" and eng.p.T[x.a[0]].get("d", "").split("::")[-1] in ("Cloned", "Copied"):
            wrap = x
            w = x.a[2]
        if w.op in ("sit", "vit"):
            lo, hi = w.a[1], w.a[2]
            val = elem(w.a[0], lo)
            if w.op == "sit" and wrap is None:
                val = mk("vref", val)
            nw = mk(w.op, w.a[0], add(lo, I(1)), hi)
        elif w.op == "sitm":
            lo, hi = w.a[0], w.a[1]
            val = mk("ref", *w.a[2:], mk("px", lo))
            nw = mk("sitm", add(lo, I(1)), hi, *w.a[2:])
        elif w.op == "agg" and eng.p.T[w.a[0]].get("d", "").endswith("::Range"):
            lo, hi = w.a[2], w.a[3]
            val = lo
            nw = mk("agg", w.a[0], 0, add(lo, I(1)), hi)
        elif w.op == "agg" and eng.p.T[w.a[0]].get("d", "").endswith("::RangeFrom"):
            lo, hi = w.a[2], None
            val = lo
            nw = mk("agg", w.a[0], 0, add(lo, I(1)))
        else:
            eng.mark_iter()
            return [(st, eng.opaque(fr, st, "next:zip", vals, atys))]
        if wrap is not None:
            nw = mk("agg", wrap.a[0], wrap.a[1], nw)
        sides.append((lo, hi, val, nw))
    out = []
    sts = [st]
    forks = 0
    for lo, hi, val, nw in sides:
        if hi is None:
            continue
        nx = []
        for s in sts:
            fk = fork_bool(eng, fr, s, eng.lt(s, lo, hi, False))
            forks += len(fk) > 1
            for s2, v in fk:
                if v:
                    nx.append(s2)
                else:
                    out.append((s2, none(rty)))
        sts = nx
    if forks:
        eng.mark_iter()
    a = list(it.a)
    a[2 + ia], a[2 + ib] = sides[0][3], sides[1][3]
    n = mk("agg", *a)
    for s in sts:
        eng.store(s, r, n)
        out.append((s, some(eng, rty, mk("agg", tup, 0, sides[0][2], sides[1][2]))))
    return out


@m("Iterator::zip", "iter::zip")
def _(eng, fr, b, st, f, vals, rty, atys):
    T = eng.p.T[rty]
    names = [x[0] for x in T["v"][0]["f"]]
    y = vals[1]
    if y.op in ("vref", "slm", "ref"):
        if eng.p.T[deref_ty(eng, atys[1])]["k"] in ("slice", "array") or eng.p.T[deref_ty(eng, atys[1])].get("d") == "std::vec::Vec":
            bm = mref(eng, st, y)
            if eng.p.T[atys[1]].get("mut") and bm.op in ("ref", "slm"):
                if bm.op == "ref":
                    bm = mk("slm", I(0), length(eng.load(st, bm)), *bm.a)
                y = mk("sitm", *bm.a)
            else:
                c = cont(eng, st, y)
                y = mk("sit", c, I(0), length(c))
    elif y.op in ("seq", "sub", "upd", "rep", "app", "elem", "sym", "phi") and (
            eng.p.T[atys[1]]["k"] == "array" or eng.p.T[atys[1]].get("d") == "std::vec::Vec"):
        y = mk("vit", y, I(0), length(y))
    fs = []
    for n in names:
        fs.append(vals[0] if n == "a" else y if n == "b" else UNINIT)
    return one(st, mk("agg", rty, 0, *fs))


@m("StepByImpl::spec_next@StepBy", "Iterator::next@StepBy")
def _(eng, fr, b, st, f, vals, rty, atys):
    """range.step_by(n): the range specialisation stores the remaining count in `end`"""
    r = mref(eng, st, vals[0])
    it = eng.load(st, r)
    if it.op == "agg":
        names = [x[0] for x in eng.p.T[it.a[0]]["v"][0]["f"]]
        g = dict(zip(names, it.a[2:]))
        rg = g.get("iter")
        if rg is not None and rg.op == "agg" and eng.p.T[rg.a[0]].get("d", "").endswith("ops::Range"):
            lo, n = rg.a[2], rg.a[3]
            step = add(g["step_minus_one"], I(1))
            if step.op != "i":
                eng.mark_iter()
                return [(st, eng.opaque(fr, st, "next:stepby", vals, atys))]
            fk = fork_bool(eng, fr, st, eng.lt(st, lo, n, False))
            if len(fk) > 1:
                eng.mark_iter()
            out = []
            for s, v in fk:
                if not v:
                    out.append((s, none(rty)))
                    continue
                nr = mk("agg", rg.a[0], 0, add(lo, step), n)
                a = [nr if nm == "iter" else x for nm, x in zip(names, it.a[2:])]
                eng.store(s, r, mk("agg", it.a[0], 0, *a))
                out.append((s, some(eng, rty, lo)))
            return out
    eng.mark_iter()
    return [(st, eng.opaque(fr, st, "next:stepby", vals, atys))]


@m("Iterator::step_by")
def _(eng, fr, b, st, f, vals, rty, atys):
    T = eng.p.T[rty]
    names = [x[0] for x in T["v"][0]["f"]]
    fs = []
    for n in names:
        if n == "iter":
            fs.append(vals[0])
        elif n == "step_minus_one":
            fs.append(sub(vals[1], I(1)))
        else:
            fs.append(T1)
    return one(st, mk("agg", rty, 0, *fs))


@m("SpecRangeSetup::setup@Range", "SpecRangeSetup::setup@T")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, vals[0])


@m("Iterator::nth", "Iterator::nth@slice::Iter", "Iterator::nth@str::Chars")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    it = eng.load(st, r)
    if it.op in ("sit", "vit") and vals[1].op == "i":
        p = add(it.a[1], vals[1])
        out = []
        for s, v in fork_bool(eng, fr, st, eng.lt(st, p, it.a[2], False)):
            if v:
                x = elem(it.a[0], p)
                eng.store(s, r, mk(it.op, it.a[0], add(p, I(1)), it.a[2]))
                out.append((s, some(eng, rty, mk("vref", x) if it.op == "sit" else x)))
            else:
                eng.store(s, r, mk(it.op, it.a[0], it.a[2], it.a[2]))
                out.append((s, none(rty)))
        return out
    return [(st, eng.opaque(fr, st, "nth", vals, atys))]


# ------------------------------------------------------------------ integers
def _wrap(op):
    def h(eng, fr, b, st, f, vals, rty, atys):
        return one(st, eng.binop(st, op, vals[0], vals[1], atys[0]))
    return h


def _ovf(op):
    def h(eng, fr, b, st, f, vals, rty, atys):
        x = eng.binop(st, op, vals[0], vals[1], atys[0])
        return one(st, mk("agg", rty, 0, x, mk("app", "ovf:" + op, vals[0], vals[1])))
    return h


def _chk(op):
    def h(eng, fr, b, st, f, vals, rty, atys):
        bits, sg = eng.p.int_info(atys[0])
        x = eng.arith(op, vals[0], vals[1], atys[0])
        if x.op == "i":
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
            return one(st, some(eng, rty, x) if lo <= x.a[0] <= hi else none(rty))
        if op == "Sub" and not sg:
            return [(s, none(rty) if under else some(eng, rty, x)) for s, under in
                    fork_bool(eng, fr, st, eng.lt(st, vals[0], vals[1], False))]
        return [(s, none(rty) if o else some(eng, rty, x)) for s, o in
                fork_bool(eng, fr, st, mk("app", "ovf:" + op, vals[0], vals[1]))]
    return h


def _sat(op):
    def h(eng, fr, b, st, f, vals, rty, atys):
        bits, sg = eng.p.int_info(atys[0])
        x = eng.arith(op, vals[0], vals[1], atys[0])
        if x.op == "i" and not sg:
            return one(st, I(min(max(x.a[0], 0), (1 << bits) - 1)))
        if op == "Sub" and not sg:
            return [(s, I(0) if under else x) for s, under in fork_bool(eng, fr, st, eng.lt(st, vals[0], vals[1], False))]
        return one(st, mk("app", "sat:" + op, vals[0], vals[1]))
    return h


for _t in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
    for _o in ("Add", "Sub", "Mul"):
        M["%s::wrapping_%s" % (_t, _o.lower())] = _wrap(_o)
        M["%s::overflowing_%s" % (_t, _o.lower())] = _ovf(_o)
        M["%s::checked_%s" % (_t, _o.lower())] = _chk(_o)
        M["%s::saturating_%s" % (_t, _o.lower())] = _sat(_o)
    for _o in ("rotate_left", "rotate_right", "reverse_bits", "swap_bytes", "count_ones", "leading_zeros", "trailing_zeros", "wrapping_pow",
               "overflowing_pow", "pow"):
        M["%s::%s" % (_t, _o)] = std_opaque
    M["%s::from_str_radix" % _t] = std_opaque


@m("intrinsics::saturating_add")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, mk("app", "sat:Add", *vals))


@m("intrinsics::integer_max", "intrinsics::integer_min", "cmp::min", "cmp::max", "Ord::min@usize", "Ord::max@usize", "Ord::min", "Ord::max",
   "Ord::min@u8", "Ord::max@u8", "Ord::min@u16", "Ord::max@u16", "Ord::min@u64", "Ord::max@u64")
def _(eng, fr, b, st, f, vals, rty, atys):
    ty = rty
    if eng.p.T[ty]["k"] != "int":
        return None
    sg = eng.p.int_info(ty)[1]
    mx = "max" in f["d"].split("::")[-1]
    x, y = vals
    out = []
    for s, v in fork_bool(eng, fr, st, eng.lt(st, x, y, sg)):
        out.append((s, (y if mx else x) if v else (x if mx else y)))
    return out


@m("intrinsics::is_val_statically_known")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, T0)


@m("intrinsics::cold_path", "intrinsics::assert_inhabited")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, unit(eng))


def panic(eng, fr, b, st, f, vals, rty, atys):
    return []


for _n in ("panicking::panic", "panicking::panic_fmt", "panicking::panic_nounwind_fmt", "option::unwrap_failed", "result::unwrap_failed",
           "option::expect_failed", "panicking::assert_failed", "index::slice_index_fail", "raw_vec::handle_error",
           "alloc::handle_alloc_error", "panicking::panic_display", "panicking::panic_explicit", "panicking::unreachable_display",
           "process::exit", "process::abort"):
    M[_n] = panic


# ------------------------------------------------------------------ options / results (fast paths; bodies are equivalent)
def _opt(eng, st, v):
    return eng.load_all(st, v)


def isvar(var):
    def h(eng, fr, b, st, f, vals, rty, atys):
        v = _opt(eng, st, vals[0])
        if v.op == "agg":
            return one(st, B(v.a[1] == var))
        d = eng.discr(v)
        c = eng.lookup(st, d)
        if c is not None:
            return one(st, B(c == var))
        return one(st, eng.eq(st, d, I(var)))
    return h


M["Option::is_some"] = isvar(1)
M["Option::is_none"] = isvar(0)
M["Result::is_ok"] = isvar(0)
M["Result::is_err"] = isvar(1)


def unwrap_var(var):
    def h(eng, fr, b, st, f, vals, rty, atys):
        v = vals[0]
        if v.op == "agg":
            if v.a[1] != var:
                return []
            return one(st, v.a[2])
        d = eng.discr(v)
        if not eng.assume(st, d, var, fr):
            return []
        x = mk("fld", v, var, 0)
        eng.note_len(x, rty)
        return one(st, x)
    return h


M["Option::unwrap"] = M["Option::expect"] = M["Option::unwrap_unchecked"] = unwrap_var(1)
M["Result::unwrap"] = M["Result::expect"] = unwrap_var(0)
M["Result::unwrap_err"] = M["Result::expect_err"] = unwrap_var(1)


# ------------------------------------------------------------------ text, maps, misc: uninterpreted
@m("str::strip_prefix")
def _(eng, fr, b, st, f, vals, rty, atys):
    return one(st, mk("app", "strip_prefix", *[eng.deep(st, v) for v in vals]))


@m("SystemTime::now", "Instant::now")
def _(eng, fr, b, st, f, vals, rty, atys):
    t = eng.fresh(st, fr, "now")
    eng.event(st, fr, "now", val=t)
    return one(st, t)


@m("Iterator::skip", "Iterator::take")
def _(eng, fr, b, st, f, vals, rty, atys):
    """skip/take on plain content iterators adjust the window"""
    it, n = vals
    T = eng.p.T[rty]
    names = [x[0] for x in T["v"][0]["f"]]
    return one(st, mk("agg", rty, 0, *[n if nm == "n" else it for nm in names]))


@m("Iterator::next@Skip", "Iterator::next@Take")
def _(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[0])
    it = eng.load(st, r)
    take = "Take" in f["d"]
    if it.op == "agg":
        names = [x[0] for x in eng.p.T[it.a[0]]["v"][0]["f"]]
        g = dict(zip(names, it.a[2:]))
        w, n = g.get("iter"), g.get("n")
        if w is not None and w.op in ("sit", "vit", "sitm"):
            k0 = 0 if w.op == "sitm" else 1
            lo, hi = w.a[k0], w.a[k0 + 1]
            pos = lo if take else add(lo, n)
            conds = [eng.lt(st, pos, hi, False)]
            if take:
                conds.insert(0, eng.lt(st, I(0), n, False))
            out, sts, forks = [], [st], 0
            for c in conds:
                nx = []
                for s in sts:
                    fk = fork_bool(eng, fr, s, c)
                    forks += len(fk) > 1
                    for s2, v in fk:
                        if v:
                            nx.append(s2)
                        else:
                            out.append((s2, none(rty)))
                sts = nx
            if forks:
                eng.mark_iter()
            for s in sts:
                if w.op == "sitm":
                    x = mk("ref", *w.a[2:], mk("px", pos))
                    nw = mk("sitm", add(pos, I(1)), hi, *w.a[2:])
                else:
                    x = elem(w.a[0], pos)
                    x = mk("vref", x) if w.op == "sit" else x
                    nw = mk(w.op, w.a[0], add(pos, I(1)), hi)
                nn = sub(n, I(1)) if take else I(0)
                eng.store(s, r, mk("agg", it.a[0], 0, *[nn if nm == "n" else nw for nm in names]))
                out.append((s, some(eng, rty, x)))
            return out
    eng.mark_iter()
    return [(st, eng.opaque(fr, st, "next:" + ("take" if take else "skip"), vals, atys))]


def _int_op(op, assign):
    def h(eng, fr, b, st, f, vals, rty, atys):
        y = eng.load_all(st, vals[1])
        ty = atys[0]
        while eng.p.T[ty]["k"] == "ref":
            ty = eng.p.T[ty]["e"]
        if assign:
            r = mref(eng, st, vals[0])
            x = eng.load(st, r)
        else:
            x = eng.load_all(st, vals[0])
        v = eng.arith(op, x, y, ty) if op in ("Add", "Sub", "Mul") else eng.binop(st, op, x, y, ty)
        if assign:
            eng.store(st, r, v)
            return one(st, unit(eng))
        return one(st, v)
    return h


for _t in ("u8", "u16", "u32", "u64", "u128", "usize"):
    for _o, _n in (("BitXor", "bitxor"), ("BitOr", "bitor"), ("BitAnd", "bitand"), ("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Shl", "shl"), ("Shr", "shr")):
        for _r in ("", "&"):
            M.setdefault("%s::%s@%s%s" % (_o, _n, _r, _t), _int_op(_o, False))
        M.setdefault("%sAssign::%s_assign@%s" % (_o, _n, _t), _int_op(_o, True))
M = {k: v for k, v in M.items() if v is not None}
