#include <vector>
