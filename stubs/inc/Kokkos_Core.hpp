#pragma once
#include <map>
#include "matar.h"
