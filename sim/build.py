#!/usr/bin/env python3
"""Build the simulated node (real ircd code from /repo) and the simulator.

Everything lands in /verif/build (git-ignored).  Objects are cached by content hash, so a
rebuild after an edit only recompiles what changed.  Nothing is written in /repo.
"""
import hashlib, os, re, subprocess, sys, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CC, CXX = "clang", "clang++"
SAN = os.environ.get("SIM_SAN", "address")
MAXNODES = 6

NODE_FLAGS = ["-g1", "-O1", "-fPIC", "-fno-strict-aliasing", "-fno-omit-frame-pointer", "-fcommon", "-w",
              "-U_FORTIFY_SOURCE", "-DIRCU_SIM=1", "-DYYERROR_VERBOSE=1"]
SIM_FLAGS = ["-g1", "-O1", "-std=c++20", "-fno-omit-frame-pointer", "-Wall", "-Wno-unused-function",
             "-Wno-vla-cxx-extension", "-Wno-deprecated-volatile", "-fPIE"]
if SAN:
    NODE_FLAGS += ["-fsanitize=" + SAN, "-fno-sanitize-address-use-after-scope",
                   "-mllvm", "-asan-stack=1"]
    SIM_FLAGS += ["-fsanitize=" + SAN, "-fno-sanitize-address-use-after-scope"]
if os.environ.get("SIM_COV"):
    NODE_FLAGS += ["-fprofile-instr-generate", "-fcoverage-mapping"]
    SIM_FLAGS += ["-fprofile-instr-generate"]

# libc / OpenSSL entry points that the node must never reach directly.
REDIRECT = """accept accept4 access alarm bind chdir close closelog connect dup dup2 epoll_create
epoll_create1 epoll_ctl epoll_wait epoll_pwait eventfd timerfd_create execv execvp execve exit _exit fcntl fcntl64 fork vfork
fstat fstat64 stat stat64 lstat lstat64 fopen fopen64 fclose fwrite fprintf vfprintf printf vprintf puts putchar fputs fputc fflush perror
getegid geteuid getgid getuid getpid getppid getrlimit getrlimit64 getrusage getsockname getpeername getsockopt
gettimeofday clock_gettime getopt ioctl isatty kill listen lseek open open64 openat openlog pipe pipe2 poll ppoll select raise read
readv pread recv recvfrom recvmsg rename unlink mkdir send sendto sendmsg setrlimit setrlimit64 setsid setsockopt setuid
setgid shutdown sigaction signal sigprocmask sleep usleep nanosleep socket socketpair syslog vsyslog time ttyname umask waitpid
write writev pwrite malloc calloc realloc free strdup strndup abort __assert_fail random srandom rand srand getrandom getenv
gethostname getaddrinfo gethostbyname SSL_set_fd SSL_CTX_use_certificate_chain_file
SSL_CTX_use_PrivateKey_file SSL_CTX_load_verify_locations SSL_CTX_set_default_verify_paths RAND_poll RAND_bytes
__fprintf_chk __printf_chk __vfprintf_chk __syslog_chk fsync ftruncate""".split()


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write("FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout.decode(errors="replace")))
        sys.exit(2)
    return r.stdout


def put(path, data):
    if os.path.exists(path) and rd(path) == data:
        return
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.rename(tmp, path)


def main():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    src = os.path.join(BUILD, "src")
    obj = os.path.join(BUILD, "obj")
    os.makedirs(src, exist_ok=True)
    os.makedirs(obj, exist_ok=True)

    # --- which sources: from Makefile.am, so that an added file is picked up
    mk = rd(os.path.join(REPO, "ircd/Makefile.am")).decode()
    m = re.search(r"^ircd_SOURCES\s*=((?:.*\\\n)*.*\n)", mk, re.M)
    srcs = [s for s in m.group(1).replace("\\", " ").split() if s.endswith((".c", ".y"))]
    srcs += ["tls_openssl.c", "engine_epoll.c", "engine_poll.c"]
    srcs = [s for s in srcs if s != "memdebug.c"] + ["memdebug.c"]

    # --- mirror of the sources (generated files never come from /repo)
    generated = {"ircd_parser.c", "ircd_parser.h", "chattr.tab.c", "version.c"}
    want = {}
    rsrc = os.path.join(REPO, "ircd")
    for f in sorted(os.listdir(rsrc)):
        if f.endswith((".c", ".h", ".y")) and f not in generated:
            want[f] = rd(os.path.join(rsrc, f))
    hdrs = b""
    rinc = os.path.join(REPO, "include")
    for f in sorted(os.listdir(rinc)):
        if f.endswith(".h"):
            hdrs += f.encode() + rd(os.path.join(rinc, f))
    hdrs += rd(os.path.join(HERE, "cfg/config.h"))
    have_patchlist = os.path.exists(os.path.join(rinc, "patchlist.h"))
    for f, d in want.items():
        put(os.path.join(src, f), d)
    for f in os.listdir(src):
        if f.endswith((".c", ".y", ".h")) and f not in want and f not in generated and f != "patchlist.h":
            os.unlink(os.path.join(src, f))
    if not have_patchlist:
        put(os.path.join(src, "patchlist.h"), b'#define PATCHLIST ""\n')

    # generated: parser
    ykey = h(want["ircd_parser.y"])
    ystamp = os.path.join(src, ".ykey")
    if not (os.path.exists(ystamp) and rd(ystamp).decode() == ykey and os.path.exists(os.path.join(src, "ircd_parser.h"))):
        run(["bison", "-y", "-d", "-o", "ircd_parser.c", "ircd_parser.y"], cwd=src)
        put(ystamp, ykey.encode())
    hdrs += rd(os.path.join(src, "ircd_parser.h"))
    for f, d in want.items():
        if f.endswith(".h"):
            hdrs += d
    inc = ["-I", os.path.join(HERE, "cfg"), "-I", os.path.join(REPO, "include"), "-I", src]
    # generated: character table
    tkey = h(want["table_gen.c"], hdrs)
    tstamp = os.path.join(src, ".tkey")
    if not (os.path.exists(tstamp) and rd(tstamp).decode() == tkey):
        tg = os.path.join(BUILD, "table_gen")
        run([CC, "-w", "-O1", *inc, os.path.join(src, "table_gen.c"), "-o", tg])
        put(os.path.join(src, "chattr.tab.c"), run([tg]))
        put(tstamp, tkey.encode())
    hdrs += rd(os.path.join(src, "chattr.tab.c"))
    # generated: version.c (fixed build date, so that nothing in the node depends on when it was built)
    sh = rd(os.path.join(rsrc, "version.c.SH")).decode()
    body = sh.split("cat >version.c <<!SUB!THIS!\n", 1)[1].split("!SUB!THIS!", 1)[0]
    body = body.replace("$generation", "1").replace("$creation", "Tue Nov 14 2023 at 22:13:20 UTC").replace("\\\\", "\\") + '    0,\n};\n'
    put(os.path.join(src, "version.c"), body.encode())

    # --- compile
    hh = h(hdrs)
    jobs, objs = [], []
    for s in srcs + ["version.c"]:
        c = s[:-2] + ".c"
        cf = os.path.join(src, c)
        key = h(rd(cf), hh, " ".join(NODE_FLAGS))
        o = os.path.join(obj, c[:-2] + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append([CC, *NODE_FLAGS, *inc, "-c", cf, "-o", o])
    simsrc = [f for f in sorted(os.listdir(HERE)) if f.endswith((".cc", ".S"))]
    shdr = b"".join(rd(os.path.join(HERE, f)) for f in sorted(os.listdir(HERE)) if f.endswith(".h"))
    sobjs = []
    for f in simsrc:
        key = h(rd(os.path.join(HERE, f)), shdr, " ".join(SIM_FLAGS), REPO)
        o = os.path.join(obj, "sim_" + f.rsplit(".", 1)[0] + "-" + key + ".o")
        sobjs.append(o)
        if not os.path.exists(o):
            jobs.append([CXX, *SIM_FLAGS, "-DSIM_REPO=\"%s\"" % REPO, "-c", os.path.join(HERE, f), "-o", o])

    def comp(cmd):
        o = cmd[-1]
        tmp = o + ".tmp.o"
        r = subprocess.run(cmd[:-1] + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return " ".join(cmd) + "\n" + r.stdout.decode(errors="replace")
        if r.stdout:
            sys.stderr.write(r.stdout.decode(errors="replace"))
        os.rename(tmp, o)
        return None

    # biggest first
    jobs.sort(key=lambda c: -os.path.getsize(c[-3] if c[-2] == "-o" else c[-1]))
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(comp, jobs) if e]
    if errs:
        sys.stderr.write("\n".join(errs[:3]) + "\n")
        sys.exit(2)

    # --- link the node image
    nkey = h(*[os.path.basename(o) for o in objs], " ".join(REDIRECT))
    nodeso = os.path.join(BUILD, "node-%s-" % nkey)
    if not all(os.path.exists(nodeso + "%d.so" % i) for i in range(MAXNODES)):
        redef = os.path.join(BUILD, "redef.txt")
        put(redef, "".join("%s sim_%s\n" % (s, s) for s in REDIRECT).encode())
        comb = os.path.join(BUILD, "node.o")
        run(["ld", "-r", "-o", comb, *objs])
        run(["objcopy", "--redefine-syms=" + redef, "--redefine-sym", "main=ircd_main", comb])
        for i in range(MAXNODES):
            cmd = [CC, "-shared", "-o", nodeso + "tmp%d.so" % i, comb, "-Wl,-Bsymbolic",
                   "-Wl,-z,norelro", "-Wl,-z,now", "-Wl,-Ttext-segment=0x%x" % (0x300000000000 + i * 0x10000000)]
            if SAN:
                cmd.append("-fsanitize=" + SAN)
            if os.environ.get("SIM_COV"):
                cmd.append("-fprofile-instr-generate")
            run(cmd)
        for i in range(MAXNODES):
            os.rename(nodeso + "tmp%d.so" % i, nodeso + "%d.so" % i)
        und = run(["nm", "-D", "-u", nodeso + "0.so"]).decode()
        put(os.path.join(BUILD, "undefined.txt"), und.encode())
        for f in os.listdir(BUILD):  # drop stale images
            if f.startswith("node-") and f.endswith(".so") and nkey not in f:
                os.unlink(os.path.join(BUILD, f))
    # --- link the simulator
    skey = h(*[os.path.basename(o) for o in sobjs])
    simbin = os.path.join(BUILD, "ircsim")
    stamp = os.path.join(BUILD, ".simkey")
    if not (os.path.exists(simbin) and os.path.exists(stamp) and rd(stamp).decode() == skey):
        cmd = [CXX, "-o", simbin + ".tmp", *sobjs, "-rdynamic", "-ldl", "-lssl", "-lcrypto", "-lcrypt", "-pie"]
        if SAN:
            cmd.append("-fsanitize=" + SAN)
        if os.environ.get("SIM_COV"):
            cmd.append("-fprofile-instr-generate")
        run(cmd)
        os.rename(simbin + ".tmp", simbin)
        put(stamp, skey.encode())
    put(os.path.join(BUILD, "node.path"), nodeso.encode())
    # prune old objects
    keep = set(objs) | set(sobjs)
    olds = [os.path.join(obj, f) for f in os.listdir(obj)]
    if len(olds) > 3 * len(keep):
        for f in olds:
            if f not in keep:
                os.unlink(f)


main()
