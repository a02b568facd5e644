// Makes Se4pwOp, which the repository exposes to C++ only, callable from the check.
#include <torch/torch.h>
#include <torch/library.h>
#include "descriptor/deepmd/include/se4pw_op.h"
using matersdk::deepPotSE::Se4pwOp;
TORCH_LIBRARY(mcverif, m) {
    m.def("se4pw", [](int64_t bs, int64_t inum, at::Tensor il, at::Tensor nn, at::Tensor fn, at::Tensor x, at::Tensor ty, int64_t nt, at::Tensor w, double rc, double rs) {
        return Se4pwOp::forward((int)bs, (int)inum, il, nn, fn, x, ty, (int)nt, w, rc, rs); });
    m.def("prim", [](int64_t bs, int64_t inum, at::Tensor il, at::Tensor nn, at::Tensor fn, at::Tensor ty, int64_t nt, at::Tensor w) {
        return Se4pwOp::get_prim_indices_from_matersdk((int)bs, (int)inum, il, nn, fn, ty, (int)nt, w); });
}
