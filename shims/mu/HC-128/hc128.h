#include "StreamCiphers/HC-128/hc128.h"
