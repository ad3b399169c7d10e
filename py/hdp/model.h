#ifndef VT_MODEL_H
#define VT_MODEL_H
/* What hdiffpatch.cpp needs of HDiffPatch, with a patch format of its own:
   "MODEL", kind, patch type, score or block size, size of the old and of the
   new data, checksum of the old data, filler size, filler, new data, checksum
   of all before. Patches of the sequential type are operations. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

typedef uint64_t hpatch_StreamPos_t;
typedef int hpatch_BOOL;
#define hpatch_TRUE 1
#define hpatch_FALSE 0

typedef struct hpatch_TStreamInput {
    void *streamImport;
    hpatch_StreamPos_t streamSize;
    hpatch_BOOL (*read)(const struct hpatch_TStreamInput *, hpatch_StreamPos_t, unsigned char *, unsigned char *);
} hpatch_TStreamInput;

typedef struct hpatch_TStreamOutput {
    void *streamImport;
    hpatch_StreamPos_t streamSize;
    void *read_writed;
    hpatch_BOOL (*write)(const struct hpatch_TStreamOutput *, hpatch_StreamPos_t, const unsigned char *, const unsigned char *);
} hpatch_TStreamOutput;

typedef struct hpatch_TFileStreamOutput {
    hpatch_TStreamOutput base;
    FILE *m_file;
    hpatch_StreamPos_t out_length;
    hpatch_BOOL fileError;
    hpatch_BOOL is_random_out;
} hpatch_TFileStreamOutput;

typedef struct hpatch_compressedDiffInfo {
    hpatch_StreamPos_t newDataSize;
    hpatch_StreamPos_t oldDataSize;
    unsigned int compressedCount;
    char compressType[64];
} hpatch_compressedDiffInfo;

typedef struct hdiff_TCompress hdiff_TCompress;
typedef struct hpatch_TDecompress hpatch_TDecompress;

/* What fails: 1 and 2 creating, 3 reading the information, 4 applying. */
extern "C" { __attribute__((visibility("default"), used)) int model_fail = 0;
             __attribute__((visibility("default"), used)) int model_open = 0; }

namespace model {

inline uint32_t crc(const std::string &s)
{
    uint32_t c = 0xffffffffu;
    for (unsigned char b : s) {
        c ^= b;
        for (int i = 0; i < 8; i++) {
            c = (c >> 1) ^ (0xedb88320u & (0u - (c & 1u)));
        }
    }
    return ~c;
}

inline void put(std::string &out, uint64_t value, int n)
{
    for (int i = 0; i < n; i++) {
        out.push_back((char)(value >> (8 * i)));
    }
}

inline uint64_t get(const std::string &in, size_t at, int n)
{
    uint64_t value = 0;
    for (int i = 0; i < n; i++) {
        value |= (uint64_t)(unsigned char)in[at + i] << (8 * i);
    }
    return value;
}

inline void pack(std::string &out, int64_t value)
{
    uint64_t v = value < 0 ? 0 - (uint64_t)value : (uint64_t)value;
    unsigned char byte = (unsigned char)((value < 0 ? 0x40 : 0) | (v & 0x3f));
    v >>= 6;
    while (v) {
        out.push_back((char)(byte | 0x80));
        byte = (unsigned char)(v & 0x7f);
        v >>= 7;
    }
    out.push_back((char)byte);
}

inline std::string operations(const std::string &old_data, const std::string &new_data, size_t block)
{
    std::string out, extra;
    std::map<std::string, size_t> blocks;
    size_t pos = 0, at = 0, length = 0, from = 0;
    if (block > 0) {
        for (size_t i = 0; i + block <= old_data.size(); i += block) {
            blocks.emplace(old_data.substr(i, block), i);
        }
    }
    /* Each operation: what was matched before, then new data up to the next match. */
    while (at <= new_data.size() && !new_data.empty()) {
        size_t next = old_data.size() + 1;
        if (at == new_data.size()) {
            next = from + length;
        } else if (block > 0 && at + block <= new_data.size()) {
            auto found = blocks.find(new_data.substr(at, block));
            if (found != blocks.end()) {
                next = found->second;
            }
        }
        if (next <= old_data.size()) {
            pack(out, (int64_t)length);
            out.append(length, '\0');
            pack(out, (int64_t)extra.size());
            out += extra;
            pos = from + length;
            if (at == new_data.size()) {
                pack(out, 0);
                break;
            }
            pack(out, (int64_t)next - (int64_t)pos);
            extra.clear();
            from = next;
            length = 0;
            while (at < new_data.size() && from + length < old_data.size()
                   && new_data[at] == old_data[from + length]) {
                at++;
                length++;
            }
        } else {
            extra.push_back(new_data[at]);
            at++;
        }
    }
    return out;
}

inline std::string create(const std::string &old_data, const std::string &new_data,
                          int kind, uint64_t option, int patch_type)
{
    if (model_fail == 1) {
        throw std::runtime_error("model: no memory");
    }
    if (patch_type == 0) {
        return operations(old_data, new_data, kind ? (size_t)option : 32);
    }
    std::string out("MODEL");
    put(out, (uint64_t)kind, 1);
    put(out, (uint64_t)patch_type, 1);
    put(out, option, 8);
    put(out, old_data.size(), 8);
    put(out, new_data.size(), 8);
    put(out, crc(old_data), 4);
    put(out, 0, 4);
    out += new_data;
    put(out, crc(out), 4);
    return out;
}

inline std::string all(const hpatch_TStreamInput *in)
{
    std::string out((size_t)in->streamSize, '\0');
    unsigned char *p = (unsigned char *)&out[0];
    /* In pieces, like a library that does not hold all. */
    for (size_t at = 0; at < out.size(); at += 1000) {
        size_t n = out.size() - at < 1000 ? out.size() - at : 1000;
        if (!in->read(in, at, p + at, p + at + n)) {
            throw std::runtime_error("model: read");
        }
    }
    return out;
}

inline hpatch_BOOL mem_read(const hpatch_TStreamInput *s, hpatch_StreamPos_t at, unsigned char *p, unsigned char *end)
{
    if (at > s->streamSize || (size_t)(end - p) > s->streamSize - at) {
        return hpatch_FALSE;
    }
    if (end > p) {
        memcpy(p, (const unsigned char *)s->streamImport + at, (size_t)(end - p));
    }
    return hpatch_TRUE;
}

inline hpatch_BOOL mem_write(const hpatch_TStreamOutput *s, hpatch_StreamPos_t at, const unsigned char *p, const unsigned char *end)
{
    if (at > s->streamSize || (size_t)(end - p) > s->streamSize - at) {
        return hpatch_FALSE;
    }
    if (end > p) {
        memcpy((unsigned char *)s->streamImport + at, p, (size_t)(end - p));
    }
    return hpatch_TRUE;
}

inline hpatch_BOOL file_write(const hpatch_TStreamOutput *s, hpatch_StreamPos_t at, const unsigned char *p, const unsigned char *end)
{
    hpatch_TFileStreamOutput *self = (hpatch_TFileStreamOutput *)s->streamImport;
    if (model_fail == 2 || self->m_file == NULL || at != self->out_length) {
        return hpatch_FALSE;
    }
    if (fwrite(p, 1, (size_t)(end - p), self->m_file) != (size_t)(end - p)) {
        return hpatch_FALSE;
    }
    self->out_length += (hpatch_StreamPos_t)(end - p);
    return hpatch_TRUE;
}

inline bool header(const std::string &diff)
{
    return diff.size() >= 43 && diff.compare(0, 5, "MODEL") == 0;
}

}

static inline void mem_as_hStreamInput(hpatch_TStreamInput *s, const unsigned char *p, const unsigned char *end)
{
    memset(s, 0, sizeof(*s));
    s->streamImport = (void *)p;
    s->streamSize = (hpatch_StreamPos_t)(end - p);
    s->read = model::mem_read;
}

static inline void mem_as_hStreamOutput(hpatch_TStreamOutput *s, unsigned char *p, unsigned char *end)
{
    memset(s, 0, sizeof(*s));
    s->streamImport = p;
    s->streamSize = (hpatch_StreamPos_t)(end - p);
    s->write = model::mem_write;
}

static inline void hpatch_TFileStreamOutput_init(hpatch_TFileStreamOutput *self)
{
    memset(self, 0, sizeof(*self));
}

static inline hpatch_BOOL hpatch_TFileStreamOutput_tmpfile(hpatch_TFileStreamOutput *self, hpatch_StreamPos_t most)
{
    self->m_file = tmpfile();
    if (self->m_file == NULL) {
        return hpatch_FALSE;
    }
    model_open++;
    self->base.streamImport = self;
    self->base.streamSize = most;
    self->base.write = model::file_write;
    return hpatch_TRUE;
}

static inline hpatch_BOOL hpatch_TFileStreamOutput_close(hpatch_TFileStreamOutput *self)
{
    if (self->m_file != NULL) {
        fclose(self->m_file);
        self->m_file = NULL;
        model_open--;
    }
    return hpatch_TRUE;
}

static inline void create_compressed_diff(const unsigned char *new_p, const unsigned char *new_end,
                                          const unsigned char *old_p, const unsigned char *old_end,
                                          std::vector<unsigned char> &out, const hdiff_TCompress *compress,
                                          int score, int patch_type)
{
    (void)compress;
    std::string diff = model::create(std::string((const char *)old_p, (size_t)(old_end - old_p)),
                                     std::string((const char *)new_p, (size_t)(new_end - new_p)),
                                     0, (uint64_t)(unsigned int)score, patch_type);
    if (model_fail == 2) {
        throw std::runtime_error("model: write");
    }
    out.assign(diff.begin(), diff.end());
}

static inline void create_compressed_diff_stream(const hpatch_TStreamInput *new_data, const hpatch_TStreamInput *old_data,
                                                 const hpatch_TStreamOutput *out, const hdiff_TCompress *compress,
                                                 size_t block, int patch_type)
{
    (void)compress;
    std::string diff = model::create(model::all(old_data), model::all(new_data), 1, block, patch_type);
    const unsigned char *p = (const unsigned char *)diff.data();
    for (size_t at = 0; at < diff.size(); at += 700) {
        size_t n = diff.size() - at < 700 ? diff.size() - at : 700;
        if (!out->write(out, at, p + at, p + at + n)) {
            throw std::runtime_error("model: write");
        }
    }
}

static inline hpatch_BOOL getCompressedDiffInfo(hpatch_compressedDiffInfo *info, const hpatch_TStreamInput *diff)
{
    std::string all = model::all(diff);
    if (model_fail == 3 || !model::header(all)) {
        return hpatch_FALSE;
    }
    memset(info, 0, sizeof(*info));
    info->oldDataSize = model::get(all, 15, 8);
    info->newDataSize = model::get(all, 23, 8);
    if (info->newDataSize > all.size()) {
        return hpatch_FALSE;
    }
    return hpatch_TRUE;
}

static inline hpatch_BOOL patch_decompress_with_cache(const hpatch_TStreamOutput *out, const hpatch_TStreamInput *old_data,
                                                      const hpatch_TStreamInput *diff, hpatch_TDecompress *plugin,
                                                      unsigned char *cache, unsigned char *cache_end)
{
    (void)plugin;
    std::string all = model::all(diff);
    if (model_fail == 4 || cache_end - cache < 1024) {
        return hpatch_FALSE;
    }
    memset(cache, 1, (size_t)(cache_end - cache));
    if (!model::header(all) || model::crc(all.substr(0, all.size() - 4)) != model::get(all, all.size() - 4, 4)) {
        return hpatch_FALSE;
    }
    if (model::crc(model::all(old_data)) != model::get(all, 31, 4)) {
        return hpatch_FALSE;
    }
    size_t size = (size_t)model::get(all, 23, 8);
    size_t at = 39 + (size_t)model::get(all, 35, 4);
    if (size != out->streamSize || at + size + 4 != all.size()) {
        return hpatch_FALSE;
    }
    const unsigned char *p = (const unsigned char *)all.data() + at;
    for (size_t i = 0; i < size; i += 900) {
        size_t n = size - i < 900 ? size - i : 900;
        if (!out->write(out, i, p + i, p + i + n)) {
            return hpatch_FALSE;
        }
    }
    return hpatch_TRUE;
}

#endif
