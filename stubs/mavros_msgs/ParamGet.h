#pragma once
#include <vcros.h>
