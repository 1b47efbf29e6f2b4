ID = "c19-clear-on-entry-only"
PROPERTY = "C19"
NEEDS = "a zone that enters failsafe for the same location and reason more than once"
BREAKS = "the record of what was reported is not cleared when failsafe is entered, so the second entry is never reported"
EDITS = [("failsafeloggers/failsafe_logger.cpp", """        _logsInCurrentState.clear();
        _currentFailsafeState = newFailsafeState;""", """        if (!newFailsafeState)
        {
            _logsInCurrentState.clear();
        }
        _currentFailsafeState = newFailsafeState;""")]
SRCS = ["failsafeloggers/failsafe_logger.cpp", "failsafeloggers/failsafe_logger_utility.cpp"]
DEMO = r'''
#include "failsafeloggers/failsafe_logger.hpp"
#include <iostream>
#include <sstream>
using namespace pid_control;
int main()
{
    std::ostringstream s; auto* old = std::cerr.rdbuf(s.rdbuf());
    FailsafeLogger l(1000, true);
    auto lines = [&] { std::string t = s.str(); s.str(""); int n = 0; for (char c : t) n += c == '\n'; return n; };
    int bad = 0;
    l.outputFailsafeLog(1, false, "a", "x"); bad += lines() != 1;
    l.outputFailsafeLog(1, true, "a", "x"); bad += lines() != 1;
    l.outputFailsafeLog(1, true, "a", "x"); bad += lines() != 0;
    l.outputFailsafeLog(1, false, "a", "x"); bad += lines() != 1;
    l.outputFailsafeLog(1, true, "a", "x"); bad += lines() != 1;
    std::cerr.rdbuf(old);
    printf("%d wrong\n", bad);
    return bad != 0;
}
'''
