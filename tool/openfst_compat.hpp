#include <algorithm>
#include <iostream>
#include <set>
#include <string>
#include <vector>
using std::cerr; using std::cout; using std::endl; using std::equal; using std::pair;
using std::set; using std::sort; using std::string; using std::vector;
