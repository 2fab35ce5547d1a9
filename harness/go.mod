module yotverif

go 1.21

require gopkg.in/yaml.v3 v3.0.0-20210107192922-496545a6307b
