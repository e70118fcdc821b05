package suites

import (
	"hash/fnv"

	"vf/ref"
)

// failCodes are status codes Neo4j servers give, of every classification.
var failCodes = []string{
	"Neo.ClientError.Statement.SyntaxError",
	"Neo.TransientError.Transaction.DeadlockDetected",
	"Neo.TransientError.Transaction.LockClientStopped",
	"Neo.TransientError.Transaction.Terminated",
	"Neo.TransientError.General.DatabaseUnavailable",
	"Neo.TransientError.Network.CommunicationError",
	"Neo.ClientError.Cluster.NotALeader",
	"Neo.ClientError.General.ForbiddenOnReadOnlyDatabase",
	"Neo.ClientError.Schema.ConstraintValidationFailed",
	"Neo.ClientError.Security.Unauthorized",
	"Neo.ClientError.Security.AuthorizationExpired",
	"Neo.ClientError.Transaction.TransactionNotFound",
	"Neo.ClientError.Transaction.TransactionTerminated",
	"Neo.ClientError.Transaction.TransactionTimedOut",
	"Neo.ClientError.Request.Invalid",
	"Neo.ClientError.Statement.ParameterMissing",
	"Neo.DatabaseError.General.UnknownError",
	"Neo.DatabaseError.Statement.ExecutionFailed",
	"Neo.ClientNotification.Statement.PerformanceWarning",
	"Neo.X",
	"",
}

// failMeta is the metadata of the failure of the given statement.
func failMeta(key string) ref.Map {
	f := fnv.New32a()
	f.Write([]byte(key))
	n := int(f.Sum32() % 1000003)
	m := ref.Map{"code": failCodes[n%len(failCodes)], "message": key}
	switch n / 100 % 12 {
	case 0:
		delete(m, "code")
	case 1:
		m["code"] = int64(n)
	case 2:
		m["extra"] = []interface{}{int64(1), nil, ref.Map{"a": 2.5}}
	}
	return m
}

// oddFailMeta is failMeta, now and then without what is usually there.
func oddFailMeta(key string) ref.Map {
	m := failMeta(key)
	f := fnv.New32a()
	f.Write([]byte(key + "odd"))
	switch f.Sum32() % 16 {
	case 0:
		delete(m, "message")
	case 1:
		m["message"] = nil
	case 2:
		m["message"] = []interface{}{key}
	case 3:
		return ref.Map{}
	}
	return m
}

// refusals are ways in which a server refuses an ACK_FAILURE.
var refusals = []ref.Map{
	{"code": "Neo.ClientError.Request.Invalid", "message": "ack refused"},
	{"code": "Neo.ClientError.Request.Invalid"},
	{},
	{"code": int64(3), "message": nil},
}
