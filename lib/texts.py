"""Texts: printed from declarations, mutated, derived at random from the grammar."""
from xdrgen import *

POOL = ["const", "enum", "struct", "union", "switch", "case", "default", "typedef", "void", "int", "unsigned", "hyper", "float",
        "double", "string", "opaque", "bool", "quadruple", "uint32_t", "u32", "i64", "TRUE", "FALSE", "A", "b_1", "Foo", "x", "_", "__a",
        "0", "1", "7", "42", "010", "4294967295", "4294967296", "2147483648", "99999999999999999999", "0x10", "0xFFFFFFFF", "0x100000000", "0xZZ", "0x", "0X1", "0x-1",
        "12ab", "type", "self", "-1", "+", "=", ";", ",", ":", "{", "}", "(", ")", "<", ">", "[", "]", "*", "<>", "%", "#define", "\"s\"",
        "'", "/*", "*/", "//", "/", "\\", "\u00e9", "\U0001f600", "\u00a0", "\x00", "\x0b", "integer", "stringy", "opaque_t", "constant",
        "interval", "unsignedx", "hyperbole", "doubled", "floaty", "enumx", "structx", "voidx", "casex", "defaultx"]


def mutate_tokens(toks, r):
    t = list(toks)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if not t:
            return t
        i = r.randrange(len(t))
        m = r.randrange(7)
        if m == 0:
            del t[i]
        elif m == 1:
            t.insert(i, r.choice(POOL))
        elif m == 2:
            t[i] = r.choice(POOL)
        elif m == 3:
            t.insert(i, t[i])
        elif m == 4:
            j = r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif m == 5:
            del t[i:i + r.randint(1, 6)]
        else:
            j = r.randrange(len(t))
            t[i:i] = t[j:j + r.randint(1, 8)]
    return t


def mutate_chars(s, r):
    for _ in range(r.choice([1, 1, 2, 4])):
        if not s:
            return s
        i = r.randrange(len(s))
        m = r.randrange(5)
        if m == 0:
            s = s[:i] + s[i + 1:]
        elif m == 1:
            s = s[:i] + r.choice(" \t\n\r/*{};<>[]=:,0x1aZ_-\"'\\\u00e9") + s[i:]
        elif m == 2:
            s = s[:i]
        elif m == 3:
            s = s[i:]
        else:
            j = r.randrange(len(s))
            s = s[:i] + s[j:]
    return s


class Sentence:
    """A random sentence of the grammar, with meanings fastxdr may not support."""

    def __init__(self, r):
        self.r = r
        self.names = ["A", "B", "Foo", "bar", "x", "y_2", "T", "Z9"]
        self.idents = self.names + ["uint32_t", "u32", "bool", "TRUE", "FALSE", "type", "self", "case", "default", "void",
                                    "unsigned", "opaquex", "integer", "0x10", "7", "0xQ", "010", "99999999999", "2147483648", "default", "int64_t", "_"]

    def one(self, xs):
        return self.r.choice(xs)

    def name(self):
        return self.one(self.names) if self.r.random() < .85 else self.one(self.idents)

    def type(self):
        return self.one([["int"], ["unsigned", "int"], ["hyper"], ["unsigned", "hyper"], ["float"], ["double"], ["string"], ["opaque"],
                         ["bool"], ["unsigned"], ["uint32_t"], [self.name()], [self.name()], [self.one(self.idents)]])

    def size(self):
        return self.one(["1", "2", "0", "5", "A", "B", "4294967295", "4294967296", "010", "zz", "TRUE", "17", "1000000"])

    def array(self):
        m = self.r.random()
        if m < .5:
            return []
        if m < .62:
            return ["<", ">"]
        if m < .8:
            return ["<", self.size(), ">"]
        return ["[", self.size(), "]"]

    def field(self):
        t = self.type()
        if self.r.random() < .15:
            return t + ["*", self.name()] + (self.array() if self.r.random() < .2 else []) + [";"]
        return t + [self.name()] + self.array() + [";"]

    def body(self):
        return ["void", ";"] if self.r.random() < .4 else self.field()

    def decl(self):
        r = self.r
        k = r.randrange(5)
        n = self.name()
        if k == 0:
            return ["const", n, "=", self.one(["1", "0x10", "4294967295", "4294967296", "010", "A", "0xZ", "Foo", "12ab", "0x", "0xffffffffffff"]), ";"]
        if k == 1:
            out = ["enum", n, "{"]
            for i in range(r.randint(1, 4)):
                out += ([","] if i else []) + [self.one(["M%d" % r.randint(0, 9), self.name()]), "=",
                                               self.one([str(i), str(i), "0x%x" % i, "2147483648", "0xffffffff", "A", "0x", "M1", "1x"])]
            return out + ["}", ";"]
        if k == 2:
            out = ["struct", n, "{"]
            for i in range(r.randint(0, 4)):
                out += self.field()
            return out + ["}", ";"]
        if k == 3:
            out = ["union", n, "switch", "("] + self.type() + [self.name(), ")", "{"]
            for i in range(r.randint(0, 4)):
                if r.random() < .8:
                    out += ["case", self.one(["0", "1", "2", "7", "A", "M1", "M2", "TRUE", "FALSE", "4294967296", "nope", "uint32_t"]), ":"]
                    if r.random() < .8:
                        out += self.body()
                else:
                    out += ["default", ":"] + self.body()
            return out + ["}", ";"]
        return ["typedef"] + self.type() + [n] + self.array() + [";"]

    def tokens(self):
        out = []
        for _ in range(self.r.randint(1, 5)):
            out += self.decl()
        return out
