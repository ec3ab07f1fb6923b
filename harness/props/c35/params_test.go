package c35

import (
	"reflect"
	"strings"
	"testing"

	nn "github.com/pa-m/sklearn/neural_network"
	"verifharness/vk"
)

// the hyperparameters and the names they have in scikit-learn
var names = map[string]string{
	"Activation": "activation", "Solver": "solver", "Alpha": "alpha", "WeightDecay": "weight_decay", "BatchSize": "batch_size",
	"LearningRate": "learning_rate", "LearningRateInit": "learning_rate_init", "PowerT": "power_t", "MaxIter": "max_iter",
	"Shuffle": "shuffle", "Tol": "tol", "Verbose": "verbose", "WarmStart": "warm_start", "Momentum": "momentum",
	"NesterovsMomentum": "nesterovs_momentum", "EarlyStopping": "early_stopping", "ValidationFraction": "validation_fraction",
	"Beta1": "beta_1", "Beta2": "beta_2", "Epsilon": "epsilon", "NIterNoChange": "n_iter_no_change", "BatchNormalize": "BATCHNORMALIZE",
}

// TestSetParams: SetParams sets the named hyperparameters, by either name, and nothing else.
func TestSetParams(t *testing.T) {
	var fields []string
	for f := range names {
		fields = append(fields, f)
	}
	vk.Prop(t, 400, "maps of hyperparameters by field or scikit-learn name, with numbers of another type, values of another kind, unknown names; non-trivial: several entries", func(c *vk.C) {
		var m interface{}
		switch c.Pick("kind", "64", "32", "regressor", "classifier") {
		case "64":
			m = nn.NewBaseMultilayerPerceptron64()
		case "32":
			m = nn.NewBaseMultilayerPerceptron32()
		case "regressor":
			m = nn.NewMLPRegressor([]int{3}, "relu", "adam", 0)
		case "classifier":
			m = nn.NewMLPClassifier([]int{3}, "relu", "adam", 0)
		}
		v := reflect.Indirect(reflect.ValueOf(m))
		params, want := map[string]interface{}{}, map[string]interface{}{}
		for _, f := range sorted(fields) {
			field := v.FieldByName(f)
			want[f] = field.Interface()
			if !c.Bool("set") {
				continue
			}
			name := f
			switch c.Int("name", 0, 2) {
			case 1:
				name = names[f]
			case 2:
				name = strings.ToLower(f)
			}
			var val interface{}
			set := true
			switch field.Kind() {
			case reflect.String:
				val = "value" + f
				if set = c.Int("wrong", 0, 3) != 0; !set {
					val = []interface{}{3, .5, true, nil, []int{1}}[c.Int("wval", 0, 4)]
				}
			case reflect.Bool:
				val = c.Bool("bval")
				if set = c.Int("wrong", 0, 3) != 0; !set {
					val = []interface{}{3, .5, "true", nil}[c.Int("wval", 0, 3)]
				}
			default:
				k := c.Int("num", 2, 99)
				val = []interface{}{k, float64(k), float32(k), uint8(k)}[c.Int("type", 0, 3)]
				if set = c.Int("wrong", 0, 3) != 0; !set {
					val = []interface{}{"3", true, nil, []float64{3}}[c.Int("wval", 0, 3)]
				}
			}
			params[name] = val
			if set {
				want[f] = reflect.ValueOf(val).Convert(field.Type()).Interface()
			}
		}
		if c.Bool("unknown") {
			params["no such parameter"] = 3
		}
		c.Mark(len(params) > 1, "%T %v", m, params)
		m.(interface{ SetParams(map[string]interface{}) }).SetParams(params)
		for _, f := range sorted(fields) {
			if got := v.FieldByName(f).Interface(); got != want[f] {
				c.Fatalf("%s is %#v, want %#v", f, got, want[f])
			}
		}
		if h := v.FieldByName("HiddenLayerSizes"); h.Len() != 1 {
			c.Fatalf("HiddenLayerSizes %v", h)
		}
	})
}

func sorted(fs []string) []string {
	out := append([]string(nil), fs...)
	for i := range out {
		for j := range out[:i] {
			if out[i] < out[j] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}
