#include "c13.hpp"
namespace c13 {
template SF body<SF>(World&, Tok, Frame);
}
