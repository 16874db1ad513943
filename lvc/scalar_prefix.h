// Forced include (-include) for every translation unit of /repo; see BUILD.json.
//
// cmmcore picks its code path with #ifdef __ARM_NEON / __x86_64__ / else. At the
// pinned commit the __x86_64__ path of cmmcore/vec.h does not compile on any
// compiler, so the project's own portable (else) path is selected here. The
// system headers need __x86_64__, so they are all included before it goes.
#pragma once
#include <math.h>
#include <alloca.h>
#include <malloc.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <chrono>
#include <climits>
#include <cmath>
#include <complex>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <future>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <ostream>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#undef __x86_64__
#undef __x86_64
