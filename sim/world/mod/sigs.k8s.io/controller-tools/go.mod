module sigs.k8s.io/controller-tools

go 1.24
