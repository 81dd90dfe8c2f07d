#!/usr/bin/env python3
"""Builds simrun: the library's sources (list taken from the project's own cmake
configuration) instrumented and linked against the simulator instead of the OS."""
import hashlib, json, os, re, shlex, subprocess, sys, fcntl

WRAPS = """pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock pthread_mutex_destroy
pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_cond_destroy
pthread_create pthread_join pthread_detach pthread_once pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_destroy sched_yield nanosleep clock_nanosleep usleep sleep time
gettimeofday clock_gettime __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort
socket bind listen accept accept4 connect send recv sendto recvfrom sendmsg recvmsg read write readv writev poll ppoll select
close shutdown fcntl fcntl64 ioctl setsockopt getsockopt getsockname getpeername dup dup2 dup3 pipe pipe2 socketpair eventfd
epoll_create epoll_create1 epoll_ctl epoll_wait epoll_pwait pselect pthread_mutex_clocklock pthread_rwlock_timedrdlock pthread_rwlock_timedwrlock pthread_rwlock_clockrdlock
pthread_rwlock_clockwrlock pthread_spin_lock pthread_spin_trylock pthread_spin_unlock sem_clockwait sem_init sem_destroy sem_wait sem_trywait sem_timedwait sem_post
gethostbyname_r gethostbyname getaddrinfo freeaddrinfo gethostname
strftime gmtime localtime asctime ctime strerror hstrerror inet_ntoa strtok""".split()

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        sys.stderr.write("build step failed: %s\n%s\n" % (" ".join(cmd), p.stdout[-6000:]))
        sys.exit(3)
    return p.stdout

def main():
    repo, here, out = sys.argv[1:4]
    lock = open(os.path.join(out, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    cm = os.path.join(out, "cmake")
    run(["cmake", "-S", repo, "-B", cm, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-Dbuild_tests=OFF", "-Dbuild_docs=OFF",
         "-DCMAKE_CXX_STANDARD=14", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"])
    cc = json.load(open(os.path.join(cm, "compile_commands.json")))
    libdir = os.path.join(os.path.realpath(repo), "libiqxmlrpc")
    srcs = []
    for e in cc:
        if e["file"].startswith(libdir) or ".dir/" in e.get("output", "") and "iqxmlrpc.dir" in e["output"]:
            args = shlex.split(e["command"]); fl = []
            i = 1
            while i < len(args):
                a = args[i]
                if a in ("-I", "-D", "-isystem", "-include"): fl += [a, args[i + 1]]; i += 1
                elif a.startswith(("-I", "-D", "-isystem")): fl.append(a)
                i += 1
            srcs.append((e["file"], fl))
    if not srcs:
        sys.stderr.write("no library sources found\n"); sys.exit(3)
    base = "-g -O1 -std=gnu++14 -w -DNDEBUG -DBOOST_TIMER_ENABLE_DEPRECATED -fno-omit-frame-pointer -fsanitize=address -pthread"
    libcov = "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"
    incs = "-I%s -I%s/libiqxmlrpc -I%s" % (repo, cm, cm)
    xml = run(["xml2-config", "--cflags"]).strip() if os.path.exists("/usr/bin/xml2-config") else "-I/usr/include/libxml2"
    n = ["rule cxx\n  command = clang++ $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n",
         "rule link\n  command = clang++ $flags $in -o $out $libs\n"]
    objs = []
    esc = lambda s: s.replace(" ", "$ ").replace(":", "$:")
    for f in sorted(os.listdir(os.path.join(here, "sim"))):
        if not f.endswith(".cc"): continue
        o = "sim_" + f[:-3] + ".o"; objs.append(o)
        core = f in ("sim.cc", "wrap.cc", "net.cc", "main.cc")
        fl = base if not core else base.replace("-fsanitize=address", "") .replace("-O1", "-O2")
        n.append("build %s: cxx %s\n  flags = %s %s %s -I%s/sim -DSIM_DIR='\"%s/sim\"'\n" % (o, esc(os.path.join(here, "sim", f)), fl, incs, xml, here, here))
    seen = {}
    for f, fl in srcs:
        b = os.path.basename(f)[:-3]; k = seen.get(b, 0); seen[b] = k + 1
        o = "lib_%s%s.o" % (b, k or ""); objs.append(o)
        n.append("build %s: cxx %s\n  flags = %s %s %s\n" % (o, esc(f), base, libcov, " ".join(shlex.quote(x) for x in fl)))
    wraps = " ".join("-Wl,--wrap=" + w for w in WRAPS)
    libs = wraps + " -Wl,-Bstatic -lboost_thread -lboost_date_time -lboost_system -lboost_chrono -lboost_atomic -lssl -lcrypto -Wl,-Bdynamic -lxml2 -ldl -lpthread"
    n.append("build simrun: link %s\n  flags = -fsanitize=address -static-libstdc++ -pthread\n  libs = %s\n" % (" ".join(objs), libs))
    nf = os.path.join(out, "build.ninja"); txt = "\n".join(n)
    if not os.path.exists(nf) or open(nf).read() != txt: open(nf, "w").write(txt)
    run(["ninja", "-C", out, "simrun"])

main()
