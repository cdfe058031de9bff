module k8s.io/apimachinery

go 1.24
