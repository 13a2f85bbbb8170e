// Standard headers the library expects its user to have included, before any of its own.
#pragma once
#include <functional>
#include <random>
#include <cmath>
#include <cassert>
#include <memory>
#include <numeric>
#include <algorithm>
#include <array>
#include <map>
#include <set>
#include <queue>
#include <stack>
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <string_view>
#include <iterator>
#include <limits>
#include <tuple>
#include <optional>
#include <bitset>
#include <iostream>
#include <sstream>
#include <fstream>
#include "sim.hpp"
#include "sim_ds/basic.hpp"
