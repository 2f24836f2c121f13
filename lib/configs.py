"""Build configurations analysed.

The first fourteen are the ones the project's own build produces here; the rest
are combinations configure.ac offers on other hosts (or with other options) that
nothing here builds or runs, but which are ordinary supported builds.
"""

X64 = "x86_64-unknown-linux-gnu"
I386 = "i386-unknown-linux-gnu"
A64 = "aarch64-unknown-linux-gnu"
ARM = "armv7a-unknown-linux-gnueabihf"
PPC64 = "powerpc64-unknown-linux-gnu"
PPC32 = "powerpc-unknown-linux-gnu"


class Config:
    def __init__(self, name, target, backend, alt=False, built=True, mm_malloc=None, flags=()):
        self.name, self.target, self.backend, self.alt, self.built = name, target, backend, alt, built
        self.x86 = target in (X64, I386)
        self.long = 8 if target in (X64, A64, PPC64) else 4
        self.big = target in (PPC64, PPC32)
        self.mm = self.x86 if mm_malloc is None else mm_malloc
        self.flags = list(flags)
        be = {"mmx": ["-mmmx"], "sse2": ["-msse", "-msse2"], "ssse3": ["-mssse3"],
              "avx2": ["-mavx2"], "neon": [], "uint64": [], "uint32": [],
              "altivec": ["-maltivec", "-mabi=altivec", "-flax-vector-conversions=all"]}[backend]
        if backend == "neon" and target == ARM:
            be = ["-mfpu=neon"]
        self.flags += be

    def defines(self):
        use = {"mmx": "MMX", "sse2": "SSE", "ssse3": "SSSE3", "avx2": "AVX2", "neon": "NEON",
               "altivec": "ALTIVEC", "uint64": "UINT64", "uint32": "UINT32"}[self.backend]
        d = {"STDC_HEADERS": 1, "HAVE_SYS_TYPES_H": 1, "HAVE_STDLIB_H": 1, "HAVE_STRING_H": 1,
             "HAVE_MEMORY_H": 1, "HAVE_STRINGS_H": 1, "HAVE_INTTYPES_H": 1, "HAVE_STDINT_H": 1,
             "HAVE_ASSERT_H": 1, "HAVE_POSIX_MEMALIGN": 1, "SIZEOF_LONG": self.long,
             "HAVE_ATTRIBUTE_MAY_ALIAS": 1, "DVBCSA_USE_" + use: 1,
             ("DVBCSA_ENDIAN_BIG" if self.big else "DVBCSA_ENDIAN_LITTLE"): 1,
             "PACKAGE": '"libdvbcsa"', "VERSION": '"1.1.0"'}
        if self.mm:
            d["HAVE_MM_MALLOC"] = 1
        if self.alt:
            d["DVBCSA_USE_ALT_SBOX"] = 1
        return d


CONFIGS = [
    Config("default", X64, "uint64"),
    Config("default-altsbox", X64, "uint64", alt=True),
    Config("uint32", X64, "uint32"),
    Config("mmx", X64, "mmx"),
    Config("sse2", X64, "sse2"),
    Config("sse2-altsbox", X64, "sse2", alt=True),
    Config("ssse3", X64, "ssse3"),
    Config("avx2", X64, "avx2"),
    Config("avx2-altsbox", X64, "avx2", alt=True),
    Config("neon-aarch64", A64, "neon"),
    Config("neon-aarch64-altsbox", A64, "neon", alt=True),
    Config("uint64-ppc64be", PPC64, "uint64"),
    Config("uint64-ppc64be-altsbox", PPC64, "uint64", alt=True),
    Config("uint32-ppc64be", PPC64, "uint32"),
    # not built here
    Config("uint32-altsbox", X64, "uint32", alt=True, built=False),
    Config("mmx-altsbox", X64, "mmx", alt=True, built=False),
    Config("ssse3-altsbox", X64, "ssse3", alt=True, built=False),
    Config("uint32-ppc64be-altsbox", PPC64, "uint32", alt=True, built=False),
    Config("uint64-i386", I386, "uint64", built=False),
    Config("uint32-i386", I386, "uint32", built=False),
    Config("mmx-i386", I386, "mmx", built=False),
    Config("sse2-i386", I386, "sse2", built=False),
    Config("ssse3-i386", I386, "ssse3", built=False),
    Config("uint64-aarch64", A64, "uint64", built=False),
    Config("neon-armv7", ARM, "neon", built=False),
    Config("uint32-armv7", ARM, "uint32", built=False),
    Config("uint32-ppc32be", PPC32, "uint32", built=False),
    Config("altivec-ppc64be", PPC64, "altivec", built=False),
    Config("altivec-ppc64be-altsbox", PPC64, "altivec", alt=True, built=False),
    Config("altivec-ppc32be", PPC32, "altivec", built=False),
]
BY_NAME = {c.name: c for c in CONFIGS}
BUILT = [c for c in CONFIGS if c.built]
