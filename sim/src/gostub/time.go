package gostub

import "time"

type timeT = time.Time
