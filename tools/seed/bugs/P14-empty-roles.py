B=dict(property="P14", cli=False, pbf=False,
needs="a relation with members all of whose roles are the empty string",
breaks="roles are left out when all are string 0, so the relation reads back with members but without roles",
edits=[("internal/t/relation.go","""	buf = pb.Embed2097152(relationRolesSID, pb.EncodeI32PackedFunc(r.RolesSID), buf)
""","""	hasRoles := false
	for _, role := range r.RolesSID {
		hasRoles = hasRoles || role != 0
	}
	if hasRoles {
		buf = pb.Embed2097152(relationRolesSID, pb.EncodeI32PackedFunc(r.RolesSID), buf)
	}
""")],
demo='''
package zzdemo

import (
	"testing"

	"github.com/squizzling/osmindex/internal/t"
)

func TestDemo(tt *testing.T) {
	r := t.Relation{ID: 5, RolesSID: []int32{0, 0}, MemIDs: []int64{3, 4}, MemberType: []uint64{1, 1}}
	var got t.Relation
	t.ReadRelation(r.Write(nil), &got)
	if len(got.RolesSID) != 2 || len(got.MemIDs) != 2 || len(got.MemberType) != 2 {
		tt.Fatalf("%+v", got)
	}
}
''')
