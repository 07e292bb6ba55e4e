/* Freestanding stand-in for the headers of a foreign platform (C13). */
#pragma once
#include <stdint.h>
