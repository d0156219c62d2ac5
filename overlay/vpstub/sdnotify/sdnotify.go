package sdnotify

const (
	SdNotifyReady     = "READY=1"
	SdNotifyStopping  = "STOPPING=1"
	SdNotifyReloading = "RELOADING=1"
	SdNotifyWatchdog  = "WATCHDOG=1"
)

func SdNotify(unset bool, state string) (bool, error) { return false, nil }
