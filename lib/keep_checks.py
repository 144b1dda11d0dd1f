"""What keeps data alive: archives, their copies and their subarchives above the two real storages."""
from engine import *
from terms import *
from walk import walk, Fail, Stop
import fsmodel, models
from cont_checks import HOOKS as IDX_HOOKS
from store_checks import unwrap_ok, text, resource, blen, mv_sizes
from fs_checks import World, KINDS
import arch_checks as A

KEY = "kept alive"


def items(ctx):
    return [(k, a, how) for k in KINDS for a in ("inner", "opt", "plain", "mixed") for how in ("opened", "built")]


def keep(ctx, it, key=KEY, short=False):
    """short: without copies."""
    KEY = key
    kind, a, how = it
    sizes = dict(mv_sizes(), AbsT=symbol("S", 1 << 32))
    hooks = dict(IDX_HOOKS)
    hooks.update(fsmodel.HOOKS)
    eng = Engine(ctx.dump(), debug=True, sizes=sizes, hooks=hooks)
    eng.unknown_elements = 0

    def body(w):
        for s in sizes.values():
            w.fact(sub(s, 1))
        wd = World(w, kind, None)
        fs = A.layout(w, a, sizes)
        rc = wd.handles[""]
        if how == "built":
            # builders of builders, and the storage only they own
            b = unwrap_ok(w, KEY, w.ret(KEY, "r_%s_new" % a, w.ret(KEY, "r_%s_twin" % kind, w.ref("r_%s_twin" % kind, 0, rc))), "creating the archive")
            r = w.ref("r_%sb_clone" % a, 0, b)
            if w.choose(2):
                c = w.ret(KEY, "r_%sb_clone" % a, r)
                w.ret(KEY, "r_%sb_drop" % a, w.at(r))
                b = c
            A.write_all(w, KEY, a, sizes, b, fs, "set")
            w.ret(KEY, "r_%sb_drop" % a, w.at(A.builder_ref(w, a, b)))
        else:
            for f in fs:
                p, _ = wd.target("", f.name)
                unwrap_ok(w, KEY, w.ret(KEY, wd.root("write"), p, w.text(f.name), w.text(f.schema), w.slice(f.payload)), "writing '%s'" % f.name)
        for f in fs:
            f.ok, f.got = True, f.payload
        for h in wd.handles.values():
            if h is not rc:
                w.do(lambda: models.rc_release(w.e, w.st, h))
        # the only handle of the storage goes into the archive
        v = unwrap_ok(w, KEY, w.ret(KEY, "r_%s_open" % a, w.ret(KEY, "r_%s_dyn" % kind, rc)), "opening the archive")
        now, part = a, None
        for n in range(2):
            s = w.choose(4) if not short else 0
            if s == 0:
                break
            r = w.ref("r_%s_clone" % now, 0, v)
            if s == 1:      # a copy outlives the original
                c = w.ret(KEY, "r_%s_clone" % now, r)
                w.ret(KEY, "r_%s_drop" % now, w.at(r))
                v = c
            elif s == 2:    # a copy is dropped
                c = w.ret(KEY, "r_%s_clone" % now, r)
                w.ret(KEY, "r_%s_drop" % now, c)
                v = w.at(r)
            else:           # a copy of a subarchive outlives the archive
                subs = [p[1] for p in A.ARCHIVES[now] if p[0] == "sub"]
                if not subs:
                    raise Stop()
                part = subs[w.choose(len(subs))]
                x = w.opt(w.ret(KEY, "r_%s_%s" % (now, part), r))
                w.must(KEY, x is not None, "the subarchive is absent")
                c = w.ret(KEY, "r_inner_clone", x)
                w.ret(KEY, "r_%s_drop" % now, w.at(r))
                v, now = c, "inner"
        try:
            if part is not None:
                r = w.ref("r_inner_payload", 0, v)
                y = w.opt(w.ret(KEY, "r_inner_payload", r))
                w.must(KEY, y is not None, "the payload of the subarchive is absent")
                f = [f for f in fs if f.part == part][-1]
                w.same(KEY, w.bytes(y), f.got, "payload of '%s'" % part)
            else:
                A.accessors(w, now, sizes, v, fs)
        except Viol as x:
            raise Fail(KEY, "%s: the data is not valid any more: %s" % (w.describe(), x))
    walk(ctx, eng, "archive %s, %s [%s storage]" % (a, how, {"mem": "memory", "file": "file"}[kind]), body)
