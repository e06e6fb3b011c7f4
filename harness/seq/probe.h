// Finds out whether a call is refused (failed CHECK or assertion, exception).
#ifndef VERIF_PROBE_H_
#define VERIF_PROBE_H_
#include <functional>
namespace seq {
// Tries the call in a forked copy of the process; if it crashes there, so does this program.
bool accepted(const std::function<void()>& f);
// Makes the call in this process, abandoning it where it is refused.  For calls that hold no lock.
bool acceptedHere(const std::function<void()>& f);
}  // namespace seq
#endif
