#pragma once
#include <cassert>
#define BOOST_ASSERT_STANDIN(x) assert(x)
#ifndef BOOST_ASSERT
#define BOOST_ASSERT(x) assert(x)
#endif
