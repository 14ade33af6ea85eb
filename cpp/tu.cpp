// One instantiation: -DHV_ORDER -DHV_SCALAR -DHV_SIZE -DHV_NAME -DHV_EPS -DHV_CONFIG [-DHV_NAMESPACE]
#include "backend_impl.hpp"
namespace
{
struct Reg
{
    Reg() { hv::register_backend(std::unique_ptr<hv::Backend>(new hv::Impl<HV_ORDER, HV_SCALAR, HV_SIZE>(HV_NAME, HV_EPS)), HV_CONFIG); }
} reg;
} // namespace
