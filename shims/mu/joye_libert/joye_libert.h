#include "AsymmetricCryptography/Joye_libert/joye_libert.h"
