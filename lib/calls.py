"""C++ expressions for arguments of a given value category."""


def given(name, cat):
    return {"l": name, "c": "std::as_const(%s)" % name, "r": "std::move(%s)" % name, "f": "std::ref(%s)" % name,
            "x": "std::move(std::as_const(%s))" % name}[cat]


def ints(xs):
    return "tv::join({%s})" % ", ".join(xs) if xs else 'std::string{"[]"}'


def vals(pairs):
    return ints(["std::to_string(tv::val(%s))" % n if c != "r" else 'std::string{"0"}' for n, c in pairs])
