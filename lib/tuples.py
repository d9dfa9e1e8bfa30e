"""C++ for tuple cases."""


def el(e):
    return "tv::mk<'%s'>(%d)" % (e[0], e[1])


def ty(e):
    return "tv::ty<'%s'>" % e[0]


def ttype(T):
    return "stdx::tuple<%s>" % ", ".join(ty(e) for e in T)


def decl(T, name="t"):
    return "%s %s{%s};\n" % (ttype(T), name, ", ".join(el(e) for e in T))


def use(cat, name="t"):
    return {"l": name, "c": "std::as_const(%s)" % name, "r": "std::move(%s)" % name}[cat]


def answer(r, o='std::string{"[]"}'):
    return "auto const r_ = %s;\nauto const o_ = %s;\ndrv::answer(r_, o_);\n" % (r, o)


def after(cat, name="t"):
    return "tv::after(%s, '%s')" % (name, cat)
