#include "c13.hpp"
namespace c13 {
template T body<T>(World&, Tok, Frame);
}
