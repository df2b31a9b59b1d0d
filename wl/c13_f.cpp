#include "c13.hpp"
namespace c13 {
template F body<F>(World&, Tok, Frame);
}
