module.exports = require('./stub.js').core;
