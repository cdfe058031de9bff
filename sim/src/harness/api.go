//go:build !noapi

package main

import (
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/webhook"
)

func allGenerators() []genall.Generator {
	return []genall.Generator{crd.Generator{}, deepcopy.Generator{}, rbac.Generator{RoleName: "manager-role"}, webhook.Generator{}}
}
