#pragma once
#include "api.h"
namespace api {
struct PartMat {
    virtual bool partitioned() const = 0;
    virtual uint32_t blockrows() const = 0;
    virtual uint32_t nblocks() const = 0;
    virtual uint32_t first_block(uint32_t br) const = 0;
    virtual uint32_t nbounds(uint32_t br) const = 0;
    virtual uint32_t bound(uint32_t br, uint32_t i) const = 0;
    virtual void spmv(const void *x, void *y) const = 0;
};
PartMat *build_part(const Spec &);
}
