"""Source lists shared by several checks."""
import glob, os
from vt import REPO
def _g(p): return sorted(os.path.relpath(x, REPO) for x in glob.glob(os.path.join(REPO, p)))
EVENT_SRC = ["src/core/lifetime.cpp", "src/core/mutex.cpp", "src/core/reference_counted.cpp", "src/core/service.cpp", "src/task/event.cpp"]
UUID_SRC = ["src/core/uuid.cpp", "src/io/openssl.cpp"]
UUID_LIBS = ["-lssl", "-lcrypto"]
MUTEX_SRC = ["src/core/mutex.cpp", "src/core/service.cpp"] + UUID_SRC
TASK_SRC = EVENT_SRC + UUID_SRC + [s for s in _g("src/task/*.cpp") if s not in EVENT_SRC] + ["src/app/module.cpp"] + _g("src/posix/app/*module*.cpp")
TASK_LIBS = ["-lboost_chrono", "-lboost_system", "-lboost_fiber", "-lboost_context", "-lssl", "-lcrypto", "-ldl"]
