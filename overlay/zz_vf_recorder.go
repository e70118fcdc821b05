package golangNeo4jBoltDriver

import "net"

// VFRecordingDriver gives the verification harness a driver that records to or
// plays back from ./recordings/<name>.json, the way the package's tests do.
func VFRecordingDriver(name, connStr string) Driver {
	d := NewDriver()
	d.(*boltDriver).recorder = newRecorder(name, connStr)
	return d
}

// VFPlayback gives the connection that plays back ./recordings/<name>.json.
func VFPlayback(name string) net.Conn { return newRecorder(name, "") }
