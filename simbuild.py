#!/usr/bin/env python3
"""Builds simulator binaries from /repo's current working tree (content-addressed under /verif/build)."""
import hashlib, os, subprocess, sys, glob, fcntl, concurrent.futures as cf, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))

WRAPS = """malloc calloc realloc free strdup
EVP_MD_CTX_new EVP_MD_CTX_free EVP_PKEY_CTX_new EVP_PKEY_CTX_free PEM_read_bio_PrivateKey PEM_read_bio_PUBKEY EVP_PKEY_free
BIO_new BIO_new_mem_buf BIO_free X509_STORE_new X509_STORE_free X509_STORE_CTX_new X509_STORE_CTX_free X509_free OBJ_txt2obj ASN1_OBJECT_free
EVP_DigestInit_ex EVP_DigestUpdate EVP_DigestFinal_ex EVP_Digest EVP_PKEY_sign_init EVP_PKEY_verify_init EVP_PKEY_verify
EVP_PKEY_CTX_set_rsa_padding EVP_PKEY_CTX_set_signature_md PEM_write_bio_PUBKEY PEM_write_bio_PrivateKey PEM_write_PrivateKey
EVP_DigestVerifyInit EVP_DigestVerify X509_STORE_CTX_init X509_STORE_add_cert X509_verify_cert EVP_PKEY_get1_encoded_public_key
i2d_ASN1_OBJECT d2i_ASN1_OBJECT PEM_read_bio_X509 EVP_PKEY_sign EVP_PKEY_CTX_get0_pkey EVP_PKEY_Q_keygen fopen fopen64 unlink remove rename fsync chmod""".split()
THREAD_WRAPS = """g_mutex_init g_mutex_clear g_mutex_lock g_mutex_unlock g_mutex_trylock
g_rec_mutex_init g_rec_mutex_clear g_rec_mutex_lock g_rec_mutex_unlock g_rec_mutex_trylock
g_cond_init g_cond_clear g_cond_wait g_cond_wait_until g_cond_signal g_cond_broadcast
g_thread_new g_thread_try_new g_thread_join g_thread_ref g_thread_unref g_thread_self g_thread_exit g_thread_yield
g_get_monotonic_time g_get_real_time g_usleep usleep nanosleep sleep sched_yield
pthread_create pthread_join pthread_detach pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast clock_gettime time""".split()
INC = ["lib/src", "lib/src/includes", "lib/src/legacy", "lib/vendors", "lib/vendors/axis-communications", "lib"]
SAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-fno-omit-frame-pointer", "-g1", "-O1"]
def _variants():
    base = ["core", "seams", "keys", "world", "mon", "vendor", "vendorkeys", "legacy", "legacydata"]
    v = {"stub": dict(plugin=None, harness=base + ["stubplugin"] + props("s", "g", "f", "l", "v", "i", "n"), thr=False),
         "unthr": dict(plugin="unthreaded-signing", harness=base + props("u", "i"), thr=False),
         "thr": dict(plugin="threaded-signing", harness=base + ["simsched"] + props("t", "i"), thr=True)}
    return v
def props(*names):
    return ["props_" + n for n in names if os.path.exists(os.path.join(SIM, "props_" + n + ".cpp"))]

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def repo_sources(plugin):
    s = sorted(glob.glob(f"{REPO}/lib/src/*.c") + glob.glob(f"{REPO}/lib/src/legacy/*.c") + glob.glob(f"{REPO}/lib/vendors/*/*.c"))
    if plugin:
        s += sorted(glob.glob(f"{REPO}/lib/plugins/{plugin}/*.c"))
    return s

class BuildError(Exception):
    pass

def build(variant, quiet=True):
    """Returns the path of the simulator binary of |variant| for the current tree."""
    cfg = _variants()[variant]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hdrs = glob.glob(f"{REPO}/lib/**/*.h", recursive=True)
        srcs = repo_sources(cfg["plugin"])
        glibc = subprocess.run(["pkg-config", "--cflags", "glib-2.0"], capture_output=True, text=True).stdout.split()
        inc = [f"-I{REPO}/{d}" for d in INC]
        cfl = SAN + ["-std=gnu11", "-DSV_VENDOR_AXIS_COMMUNICATIONS", "-w"] + inc + (glibc if cfg["thr"] else [])
        tflags = ["-fsanitize-coverage=edge,trace-loads,trace-stores"] if cfg["thr"] else []
        cxx = SAN + ["-std=c++17", "-Wall", "-Wno-unused-function"] + inc + [f"-I{SIM}"] + (glibc + ["-DSIM_THREADS"] if cfg["thr"] else [])
        jobs, objs = [], []
        hh = fhash(hdrs)
        odir = os.path.join(BUILD, "obj"); os.makedirs(odir, exist_ok=True)
        for s in srcs:
            k = fhash([s], hh + " ".join(cfl + tflags + (["objcopy1"] if cfg["thr"] else [])))
            o = f"{odir}/r_{os.path.basename(s)[:-2]}_{k}.o"; objs.append(o)
            if not os.path.exists(o):
                jobs.append((["clang", "-c", s, "-o"] + [o + ".tmp"] + cfl + tflags, o))
        hk = fhash(glob.glob(f"{SIM}/*.h") + glob.glob(f"{REPO}/lib/src/includes/*.h"))
        for n in cfg["harness"]:
            s = f"{SIM}/{n}.cpp"
            k = fhash([s], hk + " ".join(cxx))
            o = f"{odir}/h_{n}_{k}.o"; objs.append(o)
            if not os.path.exists(o):
                jobs.append((["clang++", "-c", s, "-o"] + [o + ".tmp"] + cxx, o))
        key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:20]
        exe = f"{BUILD}/sim_{variant}_{key}"
        if os.path.exists(exe):
            return exe
        def run(j):
            rc, out = sh(j[0])
            if rc: return out
            if cfg["thr"] and "/r_" in j[1]:    # memory functions called by the library (not by the simulator) are traced too
                rc, out = sh(["objcopy"] + [f"--redefine-sym=__asan_{f}=sim_traced_{f}" for f in ("memcpy", "memmove", "memset")] + [j[1] + ".tmp"])
                if rc: return out
            os.replace(j[1] + ".tmp", j[1]); return None
        with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
            errs = [e for e in ex.map(run, jobs) if e]
        if errs:
            raise BuildError("\n".join(errs))
        wr = WRAPS + (THREAD_WRAPS if cfg["thr"] else [])
        libs = ["-lcrypto", "-lpthread"] + (["-lglib-2.0"] if cfg["thr"] else [])
        for old in glob.glob(f"{BUILD}/sim_{variant}_*"):
            try: os.remove(old)
            except OSError: pass
        rc, out = sh(["clang++"] + SAN + objs + ["-o", exe + ".tmp"] + [f"-Wl,--wrap={w}" for w in wr] + libs)
        if rc: raise BuildError(out)
        os.replace(exe + ".tmp", exe)
        # keep the object cache small
        os_ = sorted(glob.glob(f"{odir}/*.o"), key=os.path.getmtime)
        for o in os_[:-250]:
            try: os.remove(o)
            except OSError: pass
        return exe
if __name__ == "__main__":
    for v in sys.argv[1:] or ["stub"]:
        try: print(build(v))
        except BuildError as e: print(e); sys.exit(2)
