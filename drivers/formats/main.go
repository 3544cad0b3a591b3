// Reads texts in every format, writes what it read in every format and reads that again.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"io"
	"log"
	"os"
	"strings"

	CF "github.com/ryanbressler/CloudForest"
	"vdrv/vt"
)

type write struct {
	Fmt    string
	Cases  []int
	Target string
	Again  bool // read the text back
}
type job struct {
	ID, Fmt, Text, File string
	Writes              []write
}

func table(fm *CF.FeatureMatrix) vt.M {
	cols := []vt.M{}
	for _, f := range fm.Data {
		cells := [][]string{}
		kind := "num"
		if _, ok := f.(*CF.DenseCatFeature); ok {
			kind = "cat"
		}
		for i := 0; i < f.Length(); i++ {
			switch {
			case f.IsMissing(i):
				cells = append(cells, []string{})
			case kind == "num":
				cells = append(cells, []string{vt.Num(f.(*CF.DenseNumFeature).Get(i))})
			default:
				cells = append(cells, []string{f.GetStr(i)})
			}
		}
		cols = append(cols, vt.M{"name": f.GetName(), "kind": kind, "cells": cells})
	}
	lookup := [][]interface{}{}
	for n, i := range fm.Map {
		lookup = append(lookup, []interface{}{n, i + 1})
	}
	labels := fm.CaseLabels
	if labels == nil {
		labels = []string{}
	}
	return vt.M{"cols": cols, "labels": labels, "lookup": lookup}
}

func parse(fmt string, r io.Reader) *CF.FeatureMatrix {
	switch fmt {
	case "arff":
		return CF.ParseARFF(r)
	case "svm":
		return CF.ParseLibSVM(r)
	}
	return CF.ParseAFM(r)
}

func main() {
	vt.Start()
	log.SetOutput(io.Discard)
	f, err := os.Open(*vt.Gen)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var j job
		if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
			panic(err)
		}
		ev := []vt.M{}
		var fm *CF.FeatureMatrix
		step := func(what string, f func()) bool {
			if msg := vt.Catch(f); msg != "" {
				ev = append(ev, vt.M{"op": "panic", "msg": what + ": " + msg})
				return false
			}
			return true
		}
		ok := step("reading "+j.Fmt, func() {
			if j.File != "" {
				var err error
				if fm, err = CF.LoadAFM(j.File); err != nil {
					panic(err)
				}
			} else {
				fm = parse(j.Fmt, strings.NewReader(j.Text))
			}
			ev = append(ev, vt.M{"op": "parse", "fmt": j.Fmt, "text": j.Text, "keep": true, "again": false, "table": table(fm)})
		})
		for _, w := range j.Writes {
			if !ok {
				break
			}
			var b bytes.Buffer
			ok = step("writing "+w.Fmt, func() {
				var err error
				switch {
				case w.Fmt == "afm":
					err = fm.WriteCases(&b, w.Cases)
				case w.Fmt == "arff":
					err = CF.WriteArffCases(fm, w.Cases, "some relation", &b)
				case len(w.Cases) == len(fm.CaseLabels) && w.Again:
					err = CF.WriteLibSvm(fm, w.Target, &b)
				default:
					err = CF.WriteLibSvmCases(fm, w.Cases, w.Target, &b)
				}
				if err != nil {
					panic(err)
				}
			})
			if !ok {
				break
			}
			ev = append(ev, vt.M{"op": "write", "fmt": w.Fmt, "cases": vt.One(w.Cases), "target": w.Target, "text": b.String()})
			if w.Again && w.Fmt != "afm" || w.Again && len(w.Cases) > 0 {
				ok = step("reading back "+w.Fmt, func() {
					ev = append(ev, vt.M{"op": "parse", "fmt": w.Fmt, "text": b.String(), "keep": false, "again": true, "table": table(parse(w.Fmt, bytes.NewReader(b.Bytes())))})
				})
			}
		}
		// writing must not have changed the table
		if ok {
			step("the table afterwards", func() {
				ev = append(ev, vt.M{"op": "parse", "fmt": j.Fmt, "text": j.Text, "keep": false, "again": false, "table": table(fm)})
			})
		}
		vt.Put(vt.M{"id": j.ID, "ev": ev})
	}
	vt.Done()
}
