#pragma once
#include <ios>
