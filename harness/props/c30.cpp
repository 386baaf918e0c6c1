// C30: the Java binding is as safe and as faithful as the C library.
// Runs a Java virtual machine inside the sanitized harness; harness/java/Driver.java drives the binding, and this file
// watches what the binding does underneath: every block it or the library allocates (to be released exactly once, by the
// time the objects that used it are collected), and every Java array it opens (through the JVM's own function table).
#include "common.hpp"
#include <jni.h>
#include <jvmti.h>
#include <atomic>
#include <unistd.h>
#include <sanitizer/allocator_interface.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));

// ------------------------------------------------------------------ what the library and the binding allocate
// (only their calls are redirected here by the linker: not those of the JVM, OpenSSL or protobuf-c)
static std::atomic_flag g_lk = ATOMIC_FLAG_INIT;
struct Lk { Lk() { while (g_lk.test_and_set(std::memory_order_acquire)) {} } ~Lk() { g_lk.clear(std::memory_order_release); } };
static const size_t NB = 1 << 20;
static const uintptr_t TOMB = 1;
struct Blk { uintptr_t p; void *pc[3]; };
static Blk *g_blk = nullptr;
static size_t g_used = 0, g_live = 0;
static std::atomic<uint64_t> g_allocs{0}, g_frees{0};
static size_t hash_(uintptr_t p) { return (p * 0x9e3779b97f4a7c15ull) >> 44; }
static void blk_add(void *p)
{
    if (!p || !g_blk) return;
    g_allocs++;
    void *f[3] = { nullptr, nullptr, nullptr };
    void **fp = (void **)__builtin_frame_address(0);          // caller, its caller, ...: the code is built with frame pointers
    for (int i = 0; i < 3; i++) { fp = (void **)*fp; if (!fp || ((uintptr_t)fp & 7)) break; f[i] = fp[1]; }
    Lk l;
    if (g_used > NB * 3 / 4) return;
    size_t i = hash_((uintptr_t)p);
    while (g_blk[i].p) i = (i + 1) & (NB - 1);
    g_blk[i] = { (uintptr_t)p, { f[0], f[1], f[2] } };
    g_used++; g_live++;
}
static void blk_del(const volatile void *p)
{
    if (!p || !g_blk) return;
    Lk l;
    for (size_t i = hash_((uintptr_t)p); g_blk[i].p; i = (i + 1) & (NB - 1)) if (g_blk[i].p == (uintptr_t)p) { g_blk[i].p = TOMB; g_live--; g_frees++; return; }
}
static void blk_reset() { Lk l; memset(g_blk, 0, NB * sizeof(Blk)); g_used = g_live = 0; }
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); blk_add(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); blk_add(p); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); blk_add(p); return p; }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); blk_add(p); return p; }
void __sanitizer_symbolize_pc(void *, const char *, char *, size_t);
JNIEXPORT jint JNICALL JNI_OnLoad_WickrCrypto(JavaVM *, void *) { return JNI_VERSION_10; }
}
static void hook_malloc(const volatile void *, size_t) {}
static void hook_free(const volatile void *p) { blk_del(p); }

// ------------------------------------------------------------------ what the binding does with Java arrays
static jniNativeInterface *g_jni = nullptr;
static std::atomic<uint64_t> a_open{0}, a_bytes{0}, a_ret{0};
static std::atomic<int64_t> a_live{0};
static std::map<void *, jsize> g_arr;
static std::mutex g_arr_m;
typedef std::lock_guard<std::mutex> La;
static jbyte *JNICALL my_get(JNIEnv *e, jbyteArray a, jboolean *copy)
{
    if (copy) *copy = JNI_TRUE;
    jsize n = g_jni->GetArrayLength(e, a);
    jbyte *p = (jbyte *)__real_malloc((size_t)n);                   // a guarded copy: no byte before or after it may be touched
    if (n) g_jni->GetByteArrayRegion(e, a, 0, n, p);
    a_open++; a_bytes += (uint64_t)n; a_live++;
    La l(g_arr_m);
    g_arr[p] = n;
    return p;
}
static void JNICALL my_release(JNIEnv *e, jbyteArray a, jbyte *p, jint mode)
{
    jsize n = -1;
    { La l(g_arr_m); auto it = g_arr.find(p); if (it != g_arr.end()) { n = it->second; if (mode != JNI_COMMIT) g_arr.erase(it); } }
    if (n < 0) { fprintf(stderr, "HARNESS-JNI an array that is not open was released\n"); abort(); }
    if (mode != JNI_ABORT && n) g_jni->SetByteArrayRegion(e, a, 0, n, p);
    if (mode != JNI_COMMIT) { free(p); a_live--; }
}
static void *JNICALL my_getcrit(JNIEnv *e, jarray a, jboolean *copy) { return my_get(e, (jbyteArray)a, copy); }
static void JNICALL my_relcrit(JNIEnv *e, jarray a, void *p, jint mode) { my_release(e, (jbyteArray)a, (jbyte *)p, mode); }
static jbyteArray JNICALL my_new(JNIEnv *e, jsize n) { a_ret++; return g_jni->NewByteArray(e, n); }

namespace v {
const char *PROP_ID = "C30";
static JavaVM *VM;
static JNIEnv *E;
static jclass DRV;
static jmethodID M_run, M_collect;

static void java_fail(const char *what)
{
    if (E && E->ExceptionCheck()) E->ExceptionDescribe();
    fprintf(stderr, "HARNESS-ERROR %s\n", what);
    _exit(3);
}
void prop_init()
{
    std::string dir = (getenv("VERIF_CLASSES") ? getenv("VERIF_CLASSES") : "");
    if (dir.empty()) {
        char self[4096];
        ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
        if (n <= 0) java_fail("no own path");
        dir.assign(self, (size_t)n);
        dir += ".classes";
    }
    std::string cp = "-Djava.class.path=" + dir;
    const char *opts[] = { cp.c_str(), "-Xint", "-XX:+UseSerialGC", "-Xms32m", "-Xmx192m", "-Xrs", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=/dev/null", "-XX:-UsePerfData", "-Xshare:auto" };
    JavaVMOption o[16];
    JavaVMInitArgs a;
    a.version = JNI_VERSION_10; a.nOptions = 0; a.options = o; a.ignoreUnrecognized = JNI_TRUE;
    for (auto x : opts) { o[a.nOptions].optionString = (char *)x; o[a.nOptions++].extraInfo = nullptr; }
    if (JNI_CreateJavaVM(&VM, (void **)&E, &a) != JNI_OK) java_fail("no Java virtual machine");
    DRV = E->FindClass("Driver");
    if (!DRV) java_fail("no Driver class");
    M_run = E->GetStaticMethodID(DRV, "run", "(JIZ)[Ljava/lang/String;");
    M_collect = E->GetStaticMethodID(DRV, "collect", "()V");
    if (!M_run || !M_collect) java_fail("no Driver methods");
    jvmtiEnv *ti = nullptr;
    if (VM->GetEnv((void **)&ti, JVMTI_VERSION_11) != JNI_OK || !ti) java_fail("no JVMTI");
    jniNativeInterface *mine = nullptr;
    if (ti->GetJNIFunctionTable(&g_jni) != JVMTI_ERROR_NONE || ti->GetJNIFunctionTable(&mine) != JVMTI_ERROR_NONE) java_fail("no JNI function table");
    mine->GetByteArrayElements = my_get;
    mine->ReleaseByteArrayElements = my_release;
    mine->GetPrimitiveArrayCritical = my_getcrit;
    mine->ReleasePrimitiveArrayCritical = my_relcrit;
    mine->NewByteArray = my_new;
    if (ti->SetJNIFunctionTable(mine) != JVMTI_ERROR_NONE) java_fail("cannot set the JNI function table");
    g_blk = (Blk *)__builtin_calloc(NB, sizeof(Blk));
    __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
    jobject l = E->CallStaticObjectMethod(DRV, E->GetStaticMethodID(DRV, "init", "()Ljava/lang/String;"));
    if (E->ExceptionCheck() || !l) java_fail("Driver.init failed");
}
static std::string str(jstring s)
{
    const char *c = E->GetStringUTFChars(s, nullptr);
    std::string r = c;
    E->ReleaseStringUTFChars(s, c);
    return r;
}
static void collect()
{
    E->CallStaticVoidMethod(DRV, M_collect);
    if (E->ExceptionCheck()) { E->ExceptionDescribe(); E->ExceptionClear(); viol("exception:collect", "an exception escaped from garbage collection"); }
}
void prop_case(uint64_t k, Rng &r)
{
    // what is left over by earlier cases is collected, and not held against this one
    E->PushLocalFrame(4096);
    blk_reset();
    { La l(g_arr_m); g_arr.clear(); a_live = 0; }
    uint64_t al0 = g_allocs, fr0 = g_frees, op0 = a_open, by0 = a_bytes, rt0 = a_ret;
    jobjectArray out = (jobjectArray)E->CallStaticObjectMethod(DRV, M_run, (jlong)r.u64(), (jint)k, (jboolean)g_thorough);
    if (E->ExceptionCheck()) { E->ExceptionDescribe(); E->ExceptionClear(); viol("exception:driver", "an exception escaped from the driver"); out = nullptr; }
    bool bad = false, refused = false;
    for (jsize i = 0, n = out ? E->GetArrayLength(out) : 0; i < n; i++) {
        jstring js = (jstring)E->GetObjectArrayElement(out, i);
        std::string s = str(js);
        E->DeleteLocalRef(js);
        if (s.size() < 2) continue;
        std::string x = s.substr(2);
        size_t b = x.find('|');
        switch (s[0]) {
            case 'E': refused |= x.compare(0, 16, "null_exceptions|") == 0; ev(x.substr(0, b).c_str(), strtoull(x.c_str() + b + 1, 0, 10)); break;
            case 'D': distinct(x); break;
            case 'N': evals(strtoull(x.c_str(), 0, 10)); break;
            case 'V': viol(x.substr(0, b), x.substr(b + 1)); bad = true; break;
        }
    }
    E->PopLocalFrame(nullptr);
    // finalizers run in threads of their own: they are given time to get to the last object
    static int leaky = 0;
    for (int i = 0, n = leaky > 4 ? 8 : 40; i < n && (i == 0 || g_live); i++) { collect(); if (g_live && i > 1) usleep(i * 4000); }
    if (g_live) leaky++;
    ev("blocks_watched", g_allocs - al0);
    ev("blocks_released", g_frees - fr0);
    ev("arrays_opened", a_open - op0);
    ev("array_bytes_in", a_bytes - by0);
    ev("arrays_returned", a_ret - rt0);
    // the binding answers a missing value (not object) with an exception, and keeps what it holds for the other arguments
    if (bad || refused) return;
    EXPECT(a_live == 0, "array-not-released", "%lld of %llu Java arrays opened by the binding were not released", (long long)a_live, (unsigned long long)(a_open - op0));
    evals(1);
    if (g_live) {
        std::map<std::string, int> by;
        for (size_t i = 0; i < NB; i++) if (g_blk[i].p > TOMB) {
            std::string w;
            for (auto pc : g_blk[i].pc) {
                if (!pc) break;
                char t[256] = "";
                __sanitizer_symbolize_pc((char *)pc - 1, "%f", t, sizeof t);
                std::string f = t;
                if (f.compare(0, 4, "Java") == 0 && f.size() > 40) f = f.substr(f.rfind("JNI_") + 4);
                if (f.empty() || f == "wickr_alloc" || f == "wickr_alloc_zero" || f.compare(0, 12, "wickr_buffer") == 0) continue;
                w += (w.empty() ? "" : "<") + f;
            }
            by[w]++;
        }
        int n = 0;
        for (auto &x : by) if (n++ < 6) viol("not-released:" + x.first, fmt("%d blocks allocated there are still allocated after every Java object is gone", x.second));
    }
}
void prop_fini() {}
} // namespace v
