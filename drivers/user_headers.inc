#include <iostream>
#include <string>
#include "spinas.h"
#include "include/eemm.h"
