#ifndef VERIF_SHIM_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_H_
#include "absl/log/absl_check.h"
#define VSHIM_LOG_FATAL ::vshim::Fatal(__FILE__, __LINE__, "").stream()
#define VSHIM_LOG_DFATAL ::vshim::Fatal(__FILE__, __LINE__, "DFATAL ").stream()
#define VSHIM_LOG_QFATAL VSHIM_LOG_FATAL
#define VSHIM_LOG_ERROR ::vshim::Note(__FILE__, __LINE__).stream()
#define VSHIM_LOG_WARNING ::vshim::Note(__FILE__, __LINE__).stream()
#define VSHIM_LOG_INFO ::vshim::Note(__FILE__, __LINE__).stream()
#define ABSL_LOG(sev) VSHIM_LOG_##sev
#define ABSL_LOG_IF(sev, c) switch (0) case 0: default: !(c) ? (void)0 : ::vshim::Voidify() && ABSL_LOG(sev)
#define ABSL_DLOG(sev) ABSL_LOG(sev)
#define ABSL_LOG_FIRST_N(sev, n) ABSL_LOG(sev)
#define ABSL_LOG_EVERY_N_SEC(sev, n) ABSL_LOG(sev)
#endif
