package simrt

import (
	"testing"
	"time"
)

func TestTimeNow(t *testing.T) {
	w := NewWorld(ReplayDecider(nil), Config{})
	a := TimeNow()
	w.now = 5e9
	w.wallOff = -3600e9
	b := TimeNow()
	if b.Sub(a) != 5*time.Second {
		t.Fatal(b.Sub(a))
	}
	if !b.Round(0).Equal(Base.Add(5*time.Second - time.Hour)) {
		t.Fatal(b, b.Round(0))
	}
	if b.Add(time.Second).Sub(a) != 6*time.Second || a.IsZero() || time.Now().Year() < 2000 {
		t.Fatal("add")
	}
	if a.Year() != 2026 {
		t.Fatal(a)
	}
}
