module vh

go 1.25

require (
	github.com/jfcg/sixb v1.4.1
	github.com/jfcg/sorty/v2 v2.0.0
)

replace github.com/jfcg/sorty/v2 => /repo
