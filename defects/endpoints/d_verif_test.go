package endpoints

import (
	"context"
	"net/http/httptest"
	"recengine/internal/domain"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
)

func srv(t *testing.T) *gin.Engine {
	t.Setenv("REC_PATH", t.TempDir())
	e := gin.New()
	NewNamespaceEndpoint(domain.NewNamespaceService(context.Background(), nil, nil)).RegisterRoutes(e)
	return e
}
func do(e *gin.Engine, m, p, b string) int {
	w := httptest.NewRecorder()
	e.ServeHTTP(w, httptest.NewRequest(m, p, strings.NewReader(b)))
	return w.Code
}

func TestD_GetByName(t *testing.T) {
	e := srv(t)
	if c := do(e, "POST", "/api/v1/namespaces", `{"name":"abc","type":"like","dislikeFactor":0.5}`); c != 201 {
		t.Fatal(c)
	}
	if c := do(e, "GET", "/api/v1/namespaces/abc", ""); c != 200 {
		t.Fatalf("status %d", c)
	}
}

func TestD_ZeroDislikeFactor(t *testing.T) {
	if c := do(srv(t), "POST", "/api/v1/namespaces", `{"name":"abc","type":"like","dislikeFactor":0}`); c != 201 {
		t.Fatalf("status %d", c)
	}
}
