module k8s.io/api

go 1.24
