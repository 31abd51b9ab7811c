#pragma once
#define STRICT_FAILSAFE_PWM 1
#define OFFLINE_FAILSAFE_PWM 0
#define UNC_FAILSAFE 0
#define HANDLE_MISSING_OBJECT_PATHS 1
