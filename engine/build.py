"""Compiles /repo sources plus a harness to one LLVM module, or natively."""
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")

ARCH = {
    "avx512": ["-mavx512f", "-mavx512vl", "-mavx512cd", "-mavx512bw", "-mavx512dq"],
    "avx2_fma": ["-mavx2", "-mfma"],
    "avx": ["-mavx"],
}


def arch_flags(src):
    b = os.path.basename(src)
    if b.startswith(("kernel_", "pack_", "have_built_path_for_")):
        for k in ("avx512", "avx2_fma", "avx"):
            if b.endswith("_%s.cc" % k):
                return ARCH[k]
    return []


# everything a multiplication needs on x86
CORE = ["allocator.cc", "apply_multiplier.cc", "block_map.cc", "blocking_counter.cc", "context.cc",
        "context_get_ctx.cc", "cpuinfo.cc", "ctx.cc", "denormal.cc", "frontend.cc", "have_built_path_for_avx.cc",
        "have_built_path_for_avx2_fma.cc", "have_built_path_for_avx512.cc", "kernel_avx.cc", "kernel_avx2_fma.cc",
        "kernel_avx512.cc", "pack_avx.cc", "pack_avx2_fma.cc", "pack_avx512.cc", "prepacked_cache.cc",
        "prepare_packed_matrices.cc", "system_aligned_alloc.cc", "thread_pool.cc", "trmul.cc", "tune.cc", "wait.cc"]

BASE = ["-std=gnu++14", "-I" + REPO, "-I" + HARNESS, "-DRUY_HAVE_CPUINFO",
        "-fno-exceptions", "-fno-strict-aliasing", "-pthread"]
BC = ["-O1", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-c",
      "-fno-stack-protector", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-Wno-everything", "-fno-builtin-memcmp",
      "-U_FORTIFY_SOURCE", "-fno-math-errno"]
UBSAN = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return",
         "-fsanitize-trap=all"]
NATIVE = ["-O1", "-g1", "-c", "-Wno-everything"]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def resolve(s):
    if os.path.isabs(s):
        return s
    if s.startswith("harness/"):
        return os.path.join(VERIF, s)
    return os.path.join(REPO, "ruy", s)


def compile_bc(workdir, name, sources, flags=(), ubsan=(), opt=None, jobs=8, perfile=None):
    """Returns the path of the linked module."""
    os.makedirs(workdir, exist_ok=True)
    srcs = [resolve(s) for s in sources]

    def one(s):
        out = os.path.join(workdir, name + "_" + os.path.basename(s).replace(".cc", "") + ".bc")
        bc = list(BC)
        if opt:
            bc[0] = opt
        extra = (perfile or {}).get(os.path.basename(s), [])
        cmd = ["clang++"] + BASE + bc + arch_flags(s) + list(flags) + list(extra)
        if os.path.basename(s) in ubsan or "*" in ubsan:
            cmd += UBSAN
        run(cmd + [s, "-o", out])
        return out
    with ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(one, srcs))
    linked = os.path.join(workdir, name + ".bc")
    run(["llvm-link", "-o", linked] + outs)
    return linked


def compile_native(workdir, name, sources, flags=(), sanitize=True, runtime="harness/verif_native.cc", cxx="clang++",
                   perfile=None, link=()):
    os.makedirs(workdir, exist_ok=True)
    srcs = [resolve(s) for s in sources] + [resolve(runtime)]
    san = []
    if sanitize is True:
        san = ["-fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero", "-fno-sanitize-recover=all"]
    elif sanitize:
        san = list(sanitize)

    def one(s):
        out = os.path.join(workdir, name + "_n_" + os.path.basename(s).replace(".cc", "") + ".o")
        extra = (perfile or {}).get(os.path.basename(s), [])
        cmd = [cxx] + BASE + NATIVE + arch_flags(s) + san + list(flags) + list(extra)
        run(cmd + [s, "-o", out])
        return out
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, srcs))
    exe = os.path.join(workdir, name + "_replay")
    run([cxx] + san + ["-pthread", "-rdynamic", "-o", exe] + outs + list(link))
    return exe
