#pragma once
#include <locale>
