/* C09: sizes that cannot be allocated. A growable writer asked for more bytes than any allocation can give (or than
 * size_t can count together with what is buffered) reports a memory error, never touches the data, never returns a
 * wrong or short result and releases everything. A writer with a flush function passes the data on exactly. */
#include "common.h"
static mpack_writer_t W; static char* data_; static size_t size_; static const char* region; static size_t huge;
static char hist[200];
#define BAD(fmt, ...) mc_fail("%s: " fmt, hist, ##__VA_ARGS__)
static unsigned handled; static mpack_error_t herr;
static void on_error(mpack_writer_t* w, mpack_error_t e) { (void)w; ++handled; herr = e; }
static unsigned passed; static size_t flushed;
static void on_flush(mpack_writer_t* w, const char* d, size_t n) { (void)w; if (n == huge) { if (d != region) BAD("other data is passed on"); ++passed; } else flushed += n; if (n > 100000 && n != huge) BAD("%zu bytes are passed on", n); }
void mc_body(void) {
    mc_shard_depth = 2;
    static const size_t B[] = { (size_t)1 << 30, (size_t)1 << 31, (size_t)0xffffffffu, (size_t)-1, (size_t)-1 / 2, (size_t)-1 / 2 + 1, (size_t)-1 / 4 * 3, (size_t)3 << 30 };
    static const int D[] = {0, 1, -1, 2, -2, 7, -7, 40, -40, 48, -48, 64, -64, 4000, -4000, 4096, -4096, 9000, -9000};
    huge = B[mc_choose(8, "size")] + (size_t)(ptrdiff_t)D[mc_choose(19, "difference")];
    static const size_t BEFORE[] = {0, 1, 9, 31, 40, 63, 64, 65, 100, 4000, 4096, 5000};
    size_t before = BEFORE[mc_choose(12, "bytes before")]; int api = (int)mc_choose(6, "function"), handler = (int)mc_choose(2, "handler"), growable = (int)mc_choose(2, "growable");
    if (huge < ((size_t)1 << 30) + 1) return;      /* (wrapped around: small) */
    static char small[16]; region = small; uint32_t h32 = (uint32_t)huge; if (api >= 2 && (size_t)h32 != huge) return;
    env_reset(); handled = 0; passed = 0; flushed = 0; data_ = (char*)"unset"; size_ = 77; static char sb[64];
    snprintf(hist, sizeof hist, "%s writer, %zu bytes before, then %zu bytes by function %d, %s handler", growable ? "growable" : "flushing", before, huge, api, handler ? "with" : "without");
    mc_state(mc_hash(1, hist, strlen(hist)));
    if (growable) mpack_writer_init_growable(&W, &data_, &size_); else { mpack_writer_init(&W, sb, sizeof sb); mpack_writer_set_flush(&W, on_flush); }
    if (handler) mpack_writer_set_error_handler(&W, on_error);
    if (before) mpack_write_object_bytes(&W, payload(), before);
    if (mpack_writer_error(&W)) BAD("before: %s", ES(mpack_writer_error(&W)));
    size_t hdr = 0;
    switch (api) {
        case 0: mpack_write_object_bytes(&W, region, huge); break;
        case 1: if (huge > 0xffffffffu) return; mpack_start_str(&W, h32); hdr = 5; mpack_write_bytes(&W, region, huge); mpack_finish_str(&W); break;
        case 2: mpack_write_str(&W, region, h32); hdr = 5; break;
        case 3: mpack_write_bin(&W, region, h32); hdr = 5; break;
        case 4: mpack_start_array(&W, 1); hdr = 1; mpack_write_object_bytes(&W, region, h32); mpack_finish_array(&W); break;
        case 5:
#if MPACK_EXTENSIONS
            mpack_write_ext(&W, 5, region, h32); hdr = 6; break;
#else
            return;
#endif
    }
    mpack_error_t e = mpack_writer_error(&W);
    if (growable) {
        if (e != mpack_error_memory) BAD("error %s instead of a memory error", ES(e));
        if (handled != (unsigned)handler || (handler && herr != e)) BAD("the handler is called %u times", handled);
        mpack_write_nil(&W); mpack_write_object_bytes(&W, payload(), 5000);
    }
    mpack_error_t f = mpack_writer_destroy(&W);
    if (growable) { if (f != mpack_error_memory) BAD("destroy: %s", ES(f)); if (strcmp(data_ ? data_ : "unset", "unset")) BAD("a result is delivered"); }
    else { if (f != mpack_ok) BAD("destroy: %s", ES(f)); if (passed != 1) BAD("the data is passed on %u times", passed); if (flushed != before + hdr) BAD("%zu other bytes instead of %zu", flushed, before + hdr); }
    if (env_live_blocks) BAD("%zu blocks are left", env_live_blocks);
    mc_eval(1); mc_step(1); if (growable) mc_nontrivial(1); mc_outcome((uint64_t)growable);
    mc_log("%s\n", hist);
}
