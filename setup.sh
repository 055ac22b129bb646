#!/bin/bash
cd "$(dirname "$0")" && exec ./check --build
