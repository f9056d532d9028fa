package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// dump writes down a message, field by field: two messages are equal iff their dumps are.
func dump(m syslog.Message) string {
	switch v := m.(type) {
	case nil:
		return "nil"
	case *rfc5424.SyslogMessage:
		if v == nil {
			return "typed nil"
		}
		return "5424{" + dumpBase(&v.Base) + fmt.Sprintf(" ver=%d sd=%s}", v.Version, dumpSD(v.StructuredData))
	case *rfc3164.SyslogMessage:
		if v == nil {
			return "typed nil"
		}
		return "3164{" + dumpBase(&v.Base) + "}"
	}
	return fmt.Sprintf("%T", m)
}

func dumpTime(t *time.Time) string {
	if t == nil {
		return "nil"
	}
	_, off := t.Zone()
	return fmt.Sprintf("%s(%d)", t.Format("2006-01-02T15:04:05.999999999"), off)
}

func dumpBase(b *syslog.Base) string {
	return fmt.Sprintf("pri=%s fac=%s sev=%s ts=%s host=%s app=%s proc=%s mid=%s msg=%s",
		u8(b.Priority), u8(b.Facility), u8(b.Severity), dumpTime(b.Timestamp), strp(b.Hostname), strp(b.Appname), strp(b.ProcID), strp(b.MsgID), strp(b.Message))
}

func dumpSD(p *map[string]map[string]string) string {
	if p == nil {
		return "nil"
	}
	ids := []string{}
	for id := range *p {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var b strings.Builder
	b.WriteString("{")
	for _, id := range ids {
		ks := []string{}
		for k := range (*p)[id] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Fprintf(&b, "%q:{", id)
		for _, k := range ks {
			fmt.Fprintf(&b, "%q:%q ", k, (*p)[id][k])
		}
		b.WriteString("}")
	}
	b.WriteString("}")
	return b.String()
}

func dumpErr(e error) string {
	if e == nil {
		return "ok"
	}
	return "error(" + e.Error() + ")"
}

func dumpRes(m syslog.Message, e error) string { return dump(m) + " " + dumpErr(e) }
