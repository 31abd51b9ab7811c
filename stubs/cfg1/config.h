#pragma once
#define STRICT_FAILSAFE_PWM 1
#define OFFLINE_FAILSAFE_PWM 1
#define UNC_FAILSAFE 1
#define HANDLE_MISSING_OBJECT_PATHS 1
