#ifndef STUB_RCPPUTILS_SE
#define STUB_RCPPUTILS_SE
#include <functional>
#include <utility>
namespace rcpputils
{
template<typename CallableT>
struct scope_exit final
{
  explicit scope_exit(CallableT && callable) : callable_(std::move(callable)) {}
  scope_exit(const scope_exit &) = delete;
  scope_exit(scope_exit && o) : callable_(std::move(o.callable_)), cancelled_(o.cancelled_) {o.cancelled_ = true;}
  ~scope_exit() {if (!cancelled_) {callable_();}}
  void cancel() {cancelled_ = true;}
private:
  CallableT callable_;
  bool cancelled_{false};
};
template<typename CallableT>
scope_exit<CallableT> make_scope_exit(CallableT && callable)
{
  return scope_exit<CallableT>(std::forward<CallableT>(callable));
}
}
#define RCPPUTILS_SE_CAT_(a, b) a ## b
#define RCPPUTILS_SE_CAT(a, b) RCPPUTILS_SE_CAT_(a, b)
#define RCPPUTILS_SCOPE_EXIT(code) \
  auto RCPPUTILS_SE_CAT(scope_exit_, __LINE__) = rcpputils::make_scope_exit([&]() {code;})
#endif
