//go:build vfrec
// +build vfrec

package suites

import bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

func init() { recordingDriver, playback = bolt.VFRecordingDriver, bolt.VFPlayback }
