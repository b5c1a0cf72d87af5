// Minimal serial stand-in for the parts of LLNL/libROM that scaleupROM calls.
// libROM is not installed in this sandbox; this stand-in lets the repository's own
// sources be compiled unmodified and monitored.  It is part of the harness, not of
// the code under test: nothing here is an oracle.
#ifndef VERIF_SHIM_LIBROM_H
#define VERIF_SHIM_LIBROM_H
#include "linalg/Vector.h"
#include "linalg/Matrix.h"
#include "linalg/Options.h"
#include "linalg/BasisGenerator.h"
#include "linalg/BasisReader.h"
#include "linalg/NNLS.h"
#include "utils/HDFDatabase.h"
#include "utils/mpi_utils.h"
#endif
